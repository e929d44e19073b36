------------------------------ MODULE AlgFlat ------------------------------
(* The algorithm of flatten_unordered (try_flatten_unordered with Errs): the poll  *)
(* state shared by the poller and the two wrapped wakers (need bits S and I, and    *)
(* P polling, W waking, K woken), the cell with the caller's waker, the bucket of    *)
(* inner streams with its own ready list.                                            *)
(* The base makes NB items available one at a time and then ends; inner stream i      *)
(* makes NI items available and ends. Each poll is made with a new waker (gen), only   *)
(* the latest of which counts. Checked: the poller reaches the end having delivered     *)
(* everything (a lost wake-up is a deadlock), it never holds more than Limit inner       *)
(* streams, the cell is never read while it is written, and a waker that wins always       *)
(* finds the state it set. A poll may panic (Panics times), after which it is polled again; it is also polled Spurious times unasked. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS NB, NI, Limit, Errs, Panics, Spurious
Inner == 1..NB \ Errs
(* --algorithm Flat
variables st = {"S"}, cell = 0, writing = FALSE, gen = 0, woken = TRUE,
  bavail = 0, btaken = 0, breg = FALSE, bend = FALSE,
  avail = [i \in Inner |-> 0], taken = [i \in Inner |-> 0], reg = [i \in Inner |-> FALSE],
  held = {}, ready = {}, fureg = FALSE, out = 0, errs = 0, finished = FALSE;
define
  Held == Limit = 0 \/ Cardinality(held) <= Limit
  Excl == ~({"P", "W"} \subseteq st)
  TypeOK == st \subseteq {"S", "I", "P", "W", "K"} /\ held \subseteq Inner /\ ready \subseteq held
end define;
procedure wake(bit)
variables v = {}, g = 0;
begin
K1: v := st;
    st := v \cup {bit} \cup (IF v \cap {"K", "P"} = {} THEN {"W"} ELSE {});
    if v \cap {"K", "P", "W"} # {} then goto K5; end if;
K2: assert ~writing; g := cell;
K3: assert st \cap {"K", "P", "W"} = {"W"};
    st := (st \ {"W"}) \cup {"K"};
K4: if g = gen then woken := TRUE; end if;
K5: return;
end procedure;
process poller = 100
variables v = {}, need = {}, item = FALSE, force = FALSE, pan = 0, cur = 0, spur = 0;
begin
P0: while ~finished do
      either await woken; or await spur < Spurious; spur := spur + 1; end either;
      woken := FALSE; gen := (gen + 1) % 3; 
P1:   await "W" \notin st; v := st; st := {"P"};
P2:   writing := TRUE;
P3:   cell := gen; writing := FALSE;
P4:   while "S" \in v do
        if bend \/ (Limit # 0 /\ Cardinality(held) >= Limit) then
          if ~bend then need := need \cup {"S"}; end if;
          goto P6;
        else
          either await pan < Panics; pan := pan + 1; goto PX; or skip; end either;
P5:       breg := btaken >= bavail;
          if btaken < bavail then
            if btaken = NB then bend := TRUE;
            elsif btaken + 1 \in Errs then
              btaken := btaken + 1; errs := errs + 1;
              need := need \cup {"S"} \cup (v \cap {"I"}); v := v \ {"I"}; item := TRUE; goto P6;
            else btaken := btaken + 1; held := held \cup {btaken}; ready := ready \cup {btaken}; v := v \cup {"I"};
            end if;
          else goto P6;
          end if;
        end if;
      end while;
P6:   if "I" \in v then
        fureg := TRUE;
P7:     while ready # {} do
          with i \in ready do cur := i; ready := ready \ {i}; end with;
          either await pan < Panics; pan := pan + 1; held := held \ {cur}; goto PX; or skip; end either;
P8:       reg[cur] := taken[cur] >= avail[cur];
          if taken[cur] < avail[cur] then
            taken[cur] := taken[cur] + 1; need := need \cup {"I"};
            if taken[cur] = NI + 1 then held := held \ {cur}; ready := ready \ {cur};
            else ready := ready \cup {cur}; item := TRUE; out := out + 1;
            end if;
            goto P10;
          end if;
        end while;
      end if;
P10:  force := ("S" \in need /\ (Limit = 0 \/ Cardinality(held) < Limit)) \/ "I" \in need;
P11:  v := st \cap {"S", "I"};
      st := need \cup v \cup (IF v # {} \/ force THEN {"K"} ELSE {});
      force := force \/ v # {}; need := {}; cur := 0;
P12:  if item then woken := TRUE;
      elsif bend /\ held = {} then finished := TRUE;
      elsif force then woken := TRUE;
      end if;
      v := {}; item := FALSE; force := FALSE;
      goto P0;
PX:   st := {"S", "I"}; woken := TRUE; v := {}; need := {}; item := FALSE; cur := 0;
    end while;
    assert errs = Cardinality(Errs) /\ (pan = 0 => out = NI * Cardinality(Inner));
end process;
process base = 101
begin
B0: while bavail <= NB do
      bavail := bavail + 1;
      if breg then breg := FALSE; call wake("S"); end if;
    end while;
end process;
process inner \in Inner
begin
I0: while avail[self] <= NI do
      avail[self] := avail[self] + 1;
      if reg[self] then
        reg[self] := FALSE;
        if self \in held then
          ready := ready \cup {self};
          if fureg then fureg := FALSE; call wake("I"); end if;
        end if;
      end if;
    end while;
end process;
end algorithm; *)
\* BEGIN TRANSLATION (chksum(pcal) = "6d13b543" /\ chksum(tla) = "99aaeb3e")
\* Process variable v of process poller at line 38 col 11 changed to v_
CONSTANT defaultInitValue
VARIABLES pc, st, cell, writing, gen, woken, bavail, btaken, breg, bend, 
          avail, taken, reg, held, ready, fureg, out, errs, finished, stack

(* define statement *)
Held == Limit = 0 \/ Cardinality(held) <= Limit
Excl == ~({"P", "W"} \subseteq st)
TypeOK == st \subseteq {"S", "I", "P", "W", "K"} /\ held \subseteq Inner /\ ready \subseteq held

VARIABLES bit, v, g, v_, need, item, force, pan, cur, spur

vars == << pc, st, cell, writing, gen, woken, bavail, btaken, breg, bend, 
           avail, taken, reg, held, ready, fureg, out, errs, finished, stack, 
           bit, v, g, v_, need, item, force, pan, cur, spur >>

ProcSet == {100} \cup {101} \cup (Inner)

Init == (* Global variables *)
        /\ st = {"S"}
        /\ cell = 0
        /\ writing = FALSE
        /\ gen = 0
        /\ woken = TRUE
        /\ bavail = 0
        /\ btaken = 0
        /\ breg = FALSE
        /\ bend = FALSE
        /\ avail = [i \in Inner |-> 0]
        /\ taken = [i \in Inner |-> 0]
        /\ reg = [i \in Inner |-> FALSE]
        /\ held = {}
        /\ ready = {}
        /\ fureg = FALSE
        /\ out = 0
        /\ errs = 0
        /\ finished = FALSE
        (* Procedure wake *)
        /\ bit = [ self \in ProcSet |-> defaultInitValue]
        /\ v = [ self \in ProcSet |-> {}]
        /\ g = [ self \in ProcSet |-> 0]
        (* Process poller *)
        /\ v_ = {}
        /\ need = {}
        /\ item = FALSE
        /\ force = FALSE
        /\ pan = 0
        /\ cur = 0
        /\ spur = 0
        /\ stack = [self \in ProcSet |-> << >>]
        /\ pc = [self \in ProcSet |-> CASE self = 100 -> "P0"
                                        [] self = 101 -> "B0"
                                        [] self \in Inner -> "I0"]

K1(self) == /\ pc[self] = "K1"
            /\ v' = [v EXCEPT ![self] = st]
            /\ st' = (v'[self] \cup {bit[self]} \cup (IF v'[self] \cap {"K", "P"} = {} THEN {"W"} ELSE {}))
            /\ IF v'[self] \cap {"K", "P", "W"} # {}
                  THEN /\ pc' = [pc EXCEPT ![self] = "K5"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "K2"]
            /\ UNCHANGED << cell, writing, gen, woken, bavail, btaken, breg, 
                            bend, avail, taken, reg, held, ready, fureg, out, 
                            errs, finished, stack, bit, g, v_, need, item, 
                            force, pan, cur, spur >>

K2(self) == /\ pc[self] = "K2"
            /\ Assert(~writing, "Failure of assertion at line 31, column 5.")
            /\ g' = [g EXCEPT ![self] = cell]
            /\ pc' = [pc EXCEPT ![self] = "K3"]
            /\ UNCHANGED << st, cell, writing, gen, woken, bavail, btaken, 
                            breg, bend, avail, taken, reg, held, ready, fureg, 
                            out, errs, finished, stack, bit, v, v_, need, item, 
                            force, pan, cur, spur >>

K3(self) == /\ pc[self] = "K3"
            /\ Assert(st \cap {"K", "P", "W"} = {"W"}, 
                      "Failure of assertion at line 32, column 5.")
            /\ st' = ((st \ {"W"}) \cup {"K"})
            /\ pc' = [pc EXCEPT ![self] = "K4"]
            /\ UNCHANGED << cell, writing, gen, woken, bavail, btaken, breg, 
                            bend, avail, taken, reg, held, ready, fureg, out, 
                            errs, finished, stack, bit, v, g, v_, need, item, 
                            force, pan, cur, spur >>

K4(self) == /\ pc[self] = "K4"
            /\ IF g[self] = gen
                  THEN /\ woken' = TRUE
                  ELSE /\ TRUE
                       /\ woken' = woken
            /\ pc' = [pc EXCEPT ![self] = "K5"]
            /\ UNCHANGED << st, cell, writing, gen, bavail, btaken, breg, bend, 
                            avail, taken, reg, held, ready, fureg, out, errs, 
                            finished, stack, bit, v, g, v_, need, item, force, 
                            pan, cur, spur >>

K5(self) == /\ pc[self] = "K5"
            /\ pc' = [pc EXCEPT ![self] = Head(stack[self]).pc]
            /\ v' = [v EXCEPT ![self] = Head(stack[self]).v]
            /\ g' = [g EXCEPT ![self] = Head(stack[self]).g]
            /\ bit' = [bit EXCEPT ![self] = Head(stack[self]).bit]
            /\ stack' = [stack EXCEPT ![self] = Tail(stack[self])]
            /\ UNCHANGED << st, cell, writing, gen, woken, bavail, btaken, 
                            breg, bend, avail, taken, reg, held, ready, fureg, 
                            out, errs, finished, v_, need, item, force, pan, 
                            cur, spur >>

wake(self) == K1(self) \/ K2(self) \/ K3(self) \/ K4(self) \/ K5(self)

P0 == /\ pc[100] = "P0"
      /\ IF ~finished
            THEN /\ \/ /\ woken
                       /\ spur' = spur
                    \/ /\ spur < Spurious
                       /\ spur' = spur + 1
                 /\ woken' = FALSE
                 /\ gen' = (gen + 1) % 3
                 /\ pc' = [pc EXCEPT ![100] = "P1"]
            ELSE /\ Assert(errs = Cardinality(Errs) /\ (pan = 0 => out = NI * Cardinality(Inner)), 
                           "Failure of assertion at line 91, column 5.")
                 /\ pc' = [pc EXCEPT ![100] = "Done"]
                 /\ UNCHANGED << gen, woken, spur >>
      /\ UNCHANGED << st, cell, writing, bavail, btaken, breg, bend, avail, 
                      taken, reg, held, ready, fureg, out, errs, finished, 
                      stack, bit, v, g, v_, need, item, force, pan, cur >>

P1 == /\ pc[100] = "P1"
      /\ "W" \notin st
      /\ v_' = st
      /\ st' = {"P"}
      /\ pc' = [pc EXCEPT ![100] = "P2"]
      /\ UNCHANGED << cell, writing, gen, woken, bavail, btaken, breg, bend, 
                      avail, taken, reg, held, ready, fureg, out, errs, 
                      finished, stack, bit, v, g, need, item, force, pan, cur, 
                      spur >>

P2 == /\ pc[100] = "P2"
      /\ writing' = TRUE
      /\ pc' = [pc EXCEPT ![100] = "P3"]
      /\ UNCHANGED << st, cell, gen, woken, bavail, btaken, breg, bend, avail, 
                      taken, reg, held, ready, fureg, out, errs, finished, 
                      stack, bit, v, g, v_, need, item, force, pan, cur, spur >>

P3 == /\ pc[100] = "P3"
      /\ cell' = gen
      /\ writing' = FALSE
      /\ pc' = [pc EXCEPT ![100] = "P4"]
      /\ UNCHANGED << st, gen, woken, bavail, btaken, breg, bend, avail, taken, 
                      reg, held, ready, fureg, out, errs, finished, stack, bit, 
                      v, g, v_, need, item, force, pan, cur, spur >>

P4 == /\ pc[100] = "P4"
      /\ IF "S" \in v_
            THEN /\ IF bend \/ (Limit # 0 /\ Cardinality(held) >= Limit)
                       THEN /\ IF ~bend
                                  THEN /\ need' = (need \cup {"S"})
                                  ELSE /\ TRUE
                                       /\ need' = need
                            /\ pc' = [pc EXCEPT ![100] = "P6"]
                            /\ pan' = pan
                       ELSE /\ \/ /\ pan < Panics
                                  /\ pan' = pan + 1
                                  /\ pc' = [pc EXCEPT ![100] = "PX"]
                               \/ /\ TRUE
                                  /\ pc' = [pc EXCEPT ![100] = "P5"]
                                  /\ pan' = pan
                            /\ need' = need
            ELSE /\ pc' = [pc EXCEPT ![100] = "P6"]
                 /\ UNCHANGED << need, pan >>
      /\ UNCHANGED << st, cell, writing, gen, woken, bavail, btaken, breg, 
                      bend, avail, taken, reg, held, ready, fureg, out, errs, 
                      finished, stack, bit, v, g, v_, item, force, cur, spur >>

P5 == /\ pc[100] = "P5"
      /\ breg' = (btaken >= bavail)
      /\ IF btaken < bavail
            THEN /\ IF btaken = NB
                       THEN /\ bend' = TRUE
                            /\ pc' = [pc EXCEPT ![100] = "P4"]
                            /\ UNCHANGED << btaken, held, ready, errs, v_, 
                                            need, item >>
                       ELSE /\ IF btaken + 1 \in Errs
                                  THEN /\ btaken' = btaken + 1
                                       /\ errs' = errs + 1
                                       /\ need' = (need \cup {"S"} \cup (v_ \cap {"I"}))
                                       /\ v_' = v_ \ {"I"}
                                       /\ item' = TRUE
                                       /\ pc' = [pc EXCEPT ![100] = "P6"]
                                       /\ UNCHANGED << held, ready >>
                                  ELSE /\ btaken' = btaken + 1
                                       /\ held' = (held \cup {btaken'})
                                       /\ ready' = (ready \cup {btaken'})
                                       /\ v_' = (v_ \cup {"I"})
                                       /\ pc' = [pc EXCEPT ![100] = "P4"]
                                       /\ UNCHANGED << errs, need, item >>
                            /\ bend' = bend
            ELSE /\ pc' = [pc EXCEPT ![100] = "P6"]
                 /\ UNCHANGED << btaken, bend, held, ready, errs, v_, need, 
                                 item >>
      /\ UNCHANGED << st, cell, writing, gen, woken, bavail, avail, taken, reg, 
                      fureg, out, finished, stack, bit, v, g, force, pan, cur, 
                      spur >>

P6 == /\ pc[100] = "P6"
      /\ IF "I" \in v_
            THEN /\ fureg' = TRUE
                 /\ pc' = [pc EXCEPT ![100] = "P7"]
            ELSE /\ pc' = [pc EXCEPT ![100] = "P10"]
                 /\ fureg' = fureg
      /\ UNCHANGED << st, cell, writing, gen, woken, bavail, btaken, breg, 
                      bend, avail, taken, reg, held, ready, out, errs, 
                      finished, stack, bit, v, g, v_, need, item, force, pan, 
                      cur, spur >>

P7 == /\ pc[100] = "P7"
      /\ IF ready # {}
            THEN /\ \E i \in ready:
                      /\ cur' = i
                      /\ ready' = ready \ {i}
                 /\ \/ /\ pan < Panics
                       /\ pan' = pan + 1
                       /\ held' = held \ {cur'}
                       /\ pc' = [pc EXCEPT ![100] = "PX"]
                    \/ /\ TRUE
                       /\ pc' = [pc EXCEPT ![100] = "P8"]
                       /\ UNCHANGED <<held, pan>>
            ELSE /\ pc' = [pc EXCEPT ![100] = "P10"]
                 /\ UNCHANGED << held, ready, pan, cur >>
      /\ UNCHANGED << st, cell, writing, gen, woken, bavail, btaken, breg, 
                      bend, avail, taken, reg, fureg, out, errs, finished, 
                      stack, bit, v, g, v_, need, item, force, spur >>

P8 == /\ pc[100] = "P8"
      /\ reg' = [reg EXCEPT ![cur] = taken[cur] >= avail[cur]]
      /\ IF taken[cur] < avail[cur]
            THEN /\ taken' = [taken EXCEPT ![cur] = taken[cur] + 1]
                 /\ need' = (need \cup {"I"})
                 /\ IF taken'[cur] = NI + 1
                       THEN /\ held' = held \ {cur}
                            /\ ready' = ready \ {cur}
                            /\ UNCHANGED << out, item >>
                       ELSE /\ ready' = (ready \cup {cur})
                            /\ item' = TRUE
                            /\ out' = out + 1
                            /\ held' = held
                 /\ pc' = [pc EXCEPT ![100] = "P10"]
            ELSE /\ pc' = [pc EXCEPT ![100] = "P7"]
                 /\ UNCHANGED << taken, held, ready, out, need, item >>
      /\ UNCHANGED << st, cell, writing, gen, woken, bavail, btaken, breg, 
                      bend, avail, fureg, errs, finished, stack, bit, v, g, v_, 
                      force, pan, cur, spur >>

P10 == /\ pc[100] = "P10"
       /\ force' = (("S" \in need /\ (Limit = 0 \/ Cardinality(held) < Limit)) \/ "I" \in need)
       /\ pc' = [pc EXCEPT ![100] = "P11"]
       /\ UNCHANGED << st, cell, writing, gen, woken, bavail, btaken, breg, 
                       bend, avail, taken, reg, held, ready, fureg, out, errs, 
                       finished, stack, bit, v, g, v_, need, item, pan, cur, 
                       spur >>

P11 == /\ pc[100] = "P11"
       /\ v_' = (st \cap {"S", "I"})
       /\ st' = (need \cup v_' \cup (IF v_' # {} \/ force THEN {"K"} ELSE {}))
       /\ force' = (force \/ v_' # {})
       /\ need' = {}
       /\ cur' = 0
       /\ pc' = [pc EXCEPT ![100] = "P12"]
       /\ UNCHANGED << cell, writing, gen, woken, bavail, btaken, breg, bend, 
                       avail, taken, reg, held, ready, fureg, out, errs, 
                       finished, stack, bit, v, g, item, pan, spur >>

P12 == /\ pc[100] = "P12"
       /\ IF item
             THEN /\ woken' = TRUE
                  /\ UNCHANGED finished
             ELSE /\ IF bend /\ held = {}
                        THEN /\ finished' = TRUE
                             /\ woken' = woken
                        ELSE /\ IF force
                                   THEN /\ woken' = TRUE
                                   ELSE /\ TRUE
                                        /\ woken' = woken
                             /\ UNCHANGED finished
       /\ v_' = {}
       /\ item' = FALSE
       /\ force' = FALSE
       /\ pc' = [pc EXCEPT ![100] = "P0"]
       /\ UNCHANGED << st, cell, writing, gen, bavail, btaken, breg, bend, 
                       avail, taken, reg, held, ready, fureg, out, errs, stack, 
                       bit, v, g, need, pan, cur, spur >>

PX == /\ pc[100] = "PX"
      /\ st' = {"S", "I"}
      /\ woken' = TRUE
      /\ v_' = {}
      /\ need' = {}
      /\ item' = FALSE
      /\ cur' = 0
      /\ pc' = [pc EXCEPT ![100] = "P0"]
      /\ UNCHANGED << cell, writing, gen, bavail, btaken, breg, bend, avail, 
                      taken, reg, held, ready, fureg, out, errs, finished, 
                      stack, bit, v, g, force, pan, spur >>

poller == P0 \/ P1 \/ P2 \/ P3 \/ P4 \/ P5 \/ P6 \/ P7 \/ P8 \/ P10 \/ P11
             \/ P12 \/ PX

B0 == /\ pc[101] = "B0"
      /\ IF bavail <= NB
            THEN /\ bavail' = bavail + 1
                 /\ IF breg
                       THEN /\ breg' = FALSE
                            /\ /\ bit' = [bit EXCEPT ![101] = "S"]
                               /\ stack' = [stack EXCEPT ![101] = << [ procedure |->  "wake",
                                                                       pc        |->  "B0",
                                                                       v         |->  v[101],
                                                                       g         |->  g[101],
                                                                       bit       |->  bit[101] ] >>
                                                                   \o stack[101]]
                            /\ v' = [v EXCEPT ![101] = {}]
                            /\ g' = [g EXCEPT ![101] = 0]
                            /\ pc' = [pc EXCEPT ![101] = "K1"]
                       ELSE /\ pc' = [pc EXCEPT ![101] = "B0"]
                            /\ UNCHANGED << breg, stack, bit, v, g >>
            ELSE /\ pc' = [pc EXCEPT ![101] = "Done"]
                 /\ UNCHANGED << bavail, breg, stack, bit, v, g >>
      /\ UNCHANGED << st, cell, writing, gen, woken, btaken, bend, avail, 
                      taken, reg, held, ready, fureg, out, errs, finished, v_, 
                      need, item, force, pan, cur, spur >>

base == B0

I0(self) == /\ pc[self] = "I0"
            /\ IF avail[self] <= NI
                  THEN /\ avail' = [avail EXCEPT ![self] = avail[self] + 1]
                       /\ IF reg[self]
                             THEN /\ reg' = [reg EXCEPT ![self] = FALSE]
                                  /\ IF self \in held
                                        THEN /\ ready' = (ready \cup {self})
                                             /\ IF fureg
                                                   THEN /\ fureg' = FALSE
                                                        /\ /\ bit' = [bit EXCEPT ![self] = "I"]
                                                           /\ stack' = [stack EXCEPT ![self] = << [ procedure |->  "wake",
                                                                                                    pc        |->  "I0",
                                                                                                    v         |->  v[self],
                                                                                                    g         |->  g[self],
                                                                                                    bit       |->  bit[self] ] >>
                                                                                                \o stack[self]]
                                                        /\ v' = [v EXCEPT ![self] = {}]
                                                        /\ g' = [g EXCEPT ![self] = 0]
                                                        /\ pc' = [pc EXCEPT ![self] = "K1"]
                                                   ELSE /\ pc' = [pc EXCEPT ![self] = "I0"]
                                                        /\ UNCHANGED << fureg, 
                                                                        stack, 
                                                                        bit, v, 
                                                                        g >>
                                        ELSE /\ pc' = [pc EXCEPT ![self] = "I0"]
                                             /\ UNCHANGED << ready, fureg, 
                                                             stack, bit, v, g >>
                             ELSE /\ pc' = [pc EXCEPT ![self] = "I0"]
                                  /\ UNCHANGED << reg, ready, fureg, stack, 
                                                  bit, v, g >>
                  ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
                       /\ UNCHANGED << avail, reg, ready, fureg, stack, bit, v, 
                                       g >>
            /\ UNCHANGED << st, cell, writing, gen, woken, bavail, btaken, 
                            breg, bend, taken, held, out, errs, finished, v_, 
                            need, item, force, pan, cur, spur >>

inner(self) == I0(self)

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == poller \/ base
           \/ (\E self \in ProcSet: wake(self))
           \/ (\E self \in Inner: inner(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION 
=============================================================================
