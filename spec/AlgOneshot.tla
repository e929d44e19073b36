----------------------------- MODULE AlgOneshot -----------------------------
(* The algorithm of the one-shot channel: a complete flag and three try-locks    *)
(* (data, receiver task, sender task), one access per step.                        *)
(* The sender may watch for cancellation, then sends or is dropped; the receiver     *)
(* polls (re-polling on a whim), may close, and may be dropped.                      *)
(* Checked: the value ends up in exactly one place; a receiver that waits is woken;  *)
(* so is a sender that waits for cancellation (NoneStranded).                            *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANT Whims
(* --algorithm Oneshot
variables complete = FALSE, data = "none", dl = 0, rxt = FALSE, rl = 0, txt = FALSE, tl = 0,
          rwoke = FALSE, twoke = FALSE, whim = Whims,
          sres = "none", rres = "none";
define
  \* the value: returned to the sender, received, or dropped with the channel - in one place only
  OnePlace == ~(sres = "err" /\ rres = "item")
end define;
process tx = 1
variables done = FALSE;
begin
T0: either goto S0;                                   \* send
    or goto X0;                                       \* drop without sending
    or skip;                                          \* wait for cancellation
    end either;
C0: if complete then goto X0; end if;
C1: if tl = 0 then tl := 1; else goto X0; end if;
C2: txt := TRUE; tl := 0;
C3: if complete then goto X0; end if;
C4: either await twoke; twoke := FALSE; goto C0;
    or await whim > 0; whim := whim - 1; goto T0;
    end either;
S0: if complete then sres := "err"; goto X0; end if;
S1: if dl # 0 then sres := "err"; goto X0; else dl := 1; end if;
S2: assert data = "none"; data := "val"; dl := 0;
S3: if complete then
S4:   if dl = 0 then
        dl := 1;
S5:     if data = "val" then data := "taken"; sres := "err"; else sres := "ok"; end if; dl := 0;
      else sres := "ok";
      end if;
    else sres := "ok";
    end if;
X0: complete := TRUE;
X1: if rl = 0 then
      rl := 1;
X2:   done := rxt; rxt := FALSE; rl := 0;
X3:   if done then rwoke := TRUE; end if;
    end if;
X4: if tl = 0 then txt := FALSE; end if;
end process;
process rx = 2
variables fin = FALSE, was = FALSE;
begin
R0: while rres = "none" do
P0:   fin := complete;
      if ~fin then
P1:     if rl = 0 then rl := 2;
P2:       rxt := TRUE; rl := 0;
        else fin := TRUE;
        end if;
      end if;
P3:   if ~(fin \/ complete) then
P4:     either await rwoke; rwoke := FALSE;
        or await whim > 0; whim := whim - 1;
           either skip;                               \* polled on a whim
           or rres := "gave up";      \* dropped
           or
K0:          complete := TRUE;                        \* close
K1:          if tl = 0 then tl := 2;
K2:            was := txt; txt := FALSE; tl := 0;
K3:            if was then twoke := TRUE; end if;
             end if;
           end either;
        end either;
      else
P5:     if dl = 0 then dl := 2;
P6:       if data = "val" then data := "received"; rres := "item"; else rres := "canceled"; end if; dl := 0;
        else rres := "canceled";
        end if;
      end if;
    end while;
Y0: complete := TRUE;
Y1: if rl = 0 then rxt := FALSE; end if;
Y2: if tl = 0 then tl := 2;
Y3:   was := txt; txt := FALSE; tl := 0;
Y4:   if was then twoke := TRUE; end if;
    end if;
end process;
end algorithm; *)
\* BEGIN TRANSLATION
VARIABLES pc, complete, data, dl, rxt, rl, txt, tl, rwoke, twoke, whim, sres, 
          rres

(* define statement *)
OnePlace == ~(sres = "err" /\ rres = "item")

VARIABLES done, fin, was

vars == << pc, complete, data, dl, rxt, rl, txt, tl, rwoke, twoke, whim, sres, 
           rres, done, fin, was >>

ProcSet == {1} \cup {2}

Init == (* Global variables *)
        /\ complete = FALSE
        /\ data = "none"
        /\ dl = 0
        /\ rxt = FALSE
        /\ rl = 0
        /\ txt = FALSE
        /\ tl = 0
        /\ rwoke = FALSE
        /\ twoke = FALSE
        /\ whim = Whims
        /\ sres = "none"
        /\ rres = "none"
        (* Process tx *)
        /\ done = FALSE
        (* Process rx *)
        /\ fin = FALSE
        /\ was = FALSE
        /\ pc = [self \in ProcSet |-> CASE self = 1 -> "T0"
                                        [] self = 2 -> "R0"]

T0 == /\ pc[1] = "T0"
      /\ \/ /\ pc' = [pc EXCEPT ![1] = "S0"]
         \/ /\ pc' = [pc EXCEPT ![1] = "X0"]
         \/ /\ TRUE
            /\ pc' = [pc EXCEPT ![1] = "C0"]
      /\ UNCHANGED << complete, data, dl, rxt, rl, txt, tl, rwoke, twoke, whim, 
                      sres, rres, done, fin, was >>

C0 == /\ pc[1] = "C0"
      /\ IF complete
            THEN /\ pc' = [pc EXCEPT ![1] = "X0"]
            ELSE /\ pc' = [pc EXCEPT ![1] = "C1"]
      /\ UNCHANGED << complete, data, dl, rxt, rl, txt, tl, rwoke, twoke, whim, 
                      sres, rres, done, fin, was >>

C1 == /\ pc[1] = "C1"
      /\ IF tl = 0
            THEN /\ tl' = 1
                 /\ pc' = [pc EXCEPT ![1] = "C2"]
            ELSE /\ pc' = [pc EXCEPT ![1] = "X0"]
                 /\ tl' = tl
      /\ UNCHANGED << complete, data, dl, rxt, rl, txt, rwoke, twoke, whim, 
                      sres, rres, done, fin, was >>

C2 == /\ pc[1] = "C2"
      /\ txt' = TRUE
      /\ tl' = 0
      /\ pc' = [pc EXCEPT ![1] = "C3"]
      /\ UNCHANGED << complete, data, dl, rxt, rl, rwoke, twoke, whim, sres, 
                      rres, done, fin, was >>

C3 == /\ pc[1] = "C3"
      /\ IF complete
            THEN /\ pc' = [pc EXCEPT ![1] = "X0"]
            ELSE /\ pc' = [pc EXCEPT ![1] = "C4"]
      /\ UNCHANGED << complete, data, dl, rxt, rl, txt, tl, rwoke, twoke, whim, 
                      sres, rres, done, fin, was >>

C4 == /\ pc[1] = "C4"
      /\ \/ /\ twoke
            /\ twoke' = FALSE
            /\ pc' = [pc EXCEPT ![1] = "C0"]
            /\ whim' = whim
         \/ /\ whim > 0
            /\ whim' = whim - 1
            /\ pc' = [pc EXCEPT ![1] = "T0"]
            /\ twoke' = twoke
      /\ UNCHANGED << complete, data, dl, rxt, rl, txt, tl, rwoke, sres, rres, 
                      done, fin, was >>

S0 == /\ pc[1] = "S0"
      /\ IF complete
            THEN /\ sres' = "err"
                 /\ pc' = [pc EXCEPT ![1] = "X0"]
            ELSE /\ pc' = [pc EXCEPT ![1] = "S1"]
                 /\ sres' = sres
      /\ UNCHANGED << complete, data, dl, rxt, rl, txt, tl, rwoke, twoke, whim, 
                      rres, done, fin, was >>

S1 == /\ pc[1] = "S1"
      /\ IF dl # 0
            THEN /\ sres' = "err"
                 /\ pc' = [pc EXCEPT ![1] = "X0"]
                 /\ dl' = dl
            ELSE /\ dl' = 1
                 /\ pc' = [pc EXCEPT ![1] = "S2"]
                 /\ sres' = sres
      /\ UNCHANGED << complete, data, rxt, rl, txt, tl, rwoke, twoke, whim, 
                      rres, done, fin, was >>

S2 == /\ pc[1] = "S2"
      /\ Assert(data = "none", "Failure of assertion at line 34, column 5.")
      /\ data' = "val"
      /\ dl' = 0
      /\ pc' = [pc EXCEPT ![1] = "S3"]
      /\ UNCHANGED << complete, rxt, rl, txt, tl, rwoke, twoke, whim, sres, 
                      rres, done, fin, was >>

S3 == /\ pc[1] = "S3"
      /\ IF complete
            THEN /\ pc' = [pc EXCEPT ![1] = "S4"]
                 /\ sres' = sres
            ELSE /\ sres' = "ok"
                 /\ pc' = [pc EXCEPT ![1] = "X0"]
      /\ UNCHANGED << complete, data, dl, rxt, rl, txt, tl, rwoke, twoke, whim, 
                      rres, done, fin, was >>

S4 == /\ pc[1] = "S4"
      /\ IF dl = 0
            THEN /\ dl' = 1
                 /\ pc' = [pc EXCEPT ![1] = "S5"]
                 /\ sres' = sres
            ELSE /\ sres' = "ok"
                 /\ pc' = [pc EXCEPT ![1] = "X0"]
                 /\ dl' = dl
      /\ UNCHANGED << complete, data, rxt, rl, txt, tl, rwoke, twoke, whim, 
                      rres, done, fin, was >>

S5 == /\ pc[1] = "S5"
      /\ IF data = "val"
            THEN /\ data' = "taken"
                 /\ sres' = "err"
            ELSE /\ sres' = "ok"
                 /\ data' = data
      /\ dl' = 0
      /\ pc' = [pc EXCEPT ![1] = "X0"]
      /\ UNCHANGED << complete, rxt, rl, txt, tl, rwoke, twoke, whim, rres, 
                      done, fin, was >>

X0 == /\ pc[1] = "X0"
      /\ complete' = TRUE
      /\ pc' = [pc EXCEPT ![1] = "X1"]
      /\ UNCHANGED << data, dl, rxt, rl, txt, tl, rwoke, twoke, whim, sres, 
                      rres, done, fin, was >>

X1 == /\ pc[1] = "X1"
      /\ IF rl = 0
            THEN /\ rl' = 1
                 /\ pc' = [pc EXCEPT ![1] = "X2"]
            ELSE /\ pc' = [pc EXCEPT ![1] = "X4"]
                 /\ rl' = rl
      /\ UNCHANGED << complete, data, dl, rxt, txt, tl, rwoke, twoke, whim, 
                      sres, rres, done, fin, was >>

X2 == /\ pc[1] = "X2"
      /\ done' = rxt
      /\ rxt' = FALSE
      /\ rl' = 0
      /\ pc' = [pc EXCEPT ![1] = "X3"]
      /\ UNCHANGED << complete, data, dl, txt, tl, rwoke, twoke, whim, sres, 
                      rres, fin, was >>

X3 == /\ pc[1] = "X3"
      /\ IF done
            THEN /\ rwoke' = TRUE
            ELSE /\ TRUE
                 /\ rwoke' = rwoke
      /\ pc' = [pc EXCEPT ![1] = "X4"]
      /\ UNCHANGED << complete, data, dl, rxt, rl, txt, tl, twoke, whim, sres, 
                      rres, done, fin, was >>

X4 == /\ pc[1] = "X4"
      /\ IF tl = 0
            THEN /\ txt' = FALSE
            ELSE /\ TRUE
                 /\ txt' = txt
      /\ pc' = [pc EXCEPT ![1] = "Done"]
      /\ UNCHANGED << complete, data, dl, rxt, rl, tl, rwoke, twoke, whim, 
                      sres, rres, done, fin, was >>

tx == T0 \/ C0 \/ C1 \/ C2 \/ C3 \/ C4 \/ S0 \/ S1 \/ S2 \/ S3 \/ S4 \/ S5
         \/ X0 \/ X1 \/ X2 \/ X3 \/ X4

R0 == /\ pc[2] = "R0"
      /\ IF rres = "none"
            THEN /\ pc' = [pc EXCEPT ![2] = "P0"]
            ELSE /\ pc' = [pc EXCEPT ![2] = "Y0"]
      /\ UNCHANGED << complete, data, dl, rxt, rl, txt, tl, rwoke, twoke, whim, 
                      sres, rres, done, fin, was >>

P0 == /\ pc[2] = "P0"
      /\ fin' = complete
      /\ IF ~fin'
            THEN /\ pc' = [pc EXCEPT ![2] = "P1"]
            ELSE /\ pc' = [pc EXCEPT ![2] = "P3"]
      /\ UNCHANGED << complete, data, dl, rxt, rl, txt, tl, rwoke, twoke, whim, 
                      sres, rres, done, was >>

P1 == /\ pc[2] = "P1"
      /\ IF rl = 0
            THEN /\ rl' = 2
                 /\ pc' = [pc EXCEPT ![2] = "P2"]
                 /\ fin' = fin
            ELSE /\ fin' = TRUE
                 /\ pc' = [pc EXCEPT ![2] = "P3"]
                 /\ rl' = rl
      /\ UNCHANGED << complete, data, dl, rxt, txt, tl, rwoke, twoke, whim, 
                      sres, rres, done, was >>

P2 == /\ pc[2] = "P2"
      /\ rxt' = TRUE
      /\ rl' = 0
      /\ pc' = [pc EXCEPT ![2] = "P3"]
      /\ UNCHANGED << complete, data, dl, txt, tl, rwoke, twoke, whim, sres, 
                      rres, done, fin, was >>

P3 == /\ pc[2] = "P3"
      /\ IF ~(fin \/ complete)
            THEN /\ pc' = [pc EXCEPT ![2] = "P4"]
            ELSE /\ pc' = [pc EXCEPT ![2] = "P5"]
      /\ UNCHANGED << complete, data, dl, rxt, rl, txt, tl, rwoke, twoke, whim, 
                      sres, rres, done, fin, was >>

P4 == /\ pc[2] = "P4"
      /\ \/ /\ rwoke
            /\ rwoke' = FALSE
            /\ pc' = [pc EXCEPT ![2] = "R0"]
            /\ UNCHANGED <<whim, rres>>
         \/ /\ whim > 0
            /\ whim' = whim - 1
            /\ \/ /\ TRUE
                  /\ pc' = [pc EXCEPT ![2] = "R0"]
                  /\ rres' = rres
               \/ /\ rres' = "gave up"
                  /\ pc' = [pc EXCEPT ![2] = "R0"]
               \/ /\ pc' = [pc EXCEPT ![2] = "K0"]
                  /\ rres' = rres
            /\ rwoke' = rwoke
      /\ UNCHANGED << complete, data, dl, rxt, rl, txt, tl, twoke, sres, done, 
                      fin, was >>

K0 == /\ pc[2] = "K0"
      /\ complete' = TRUE
      /\ pc' = [pc EXCEPT ![2] = "K1"]
      /\ UNCHANGED << data, dl, rxt, rl, txt, tl, rwoke, twoke, whim, sres, 
                      rres, done, fin, was >>

K1 == /\ pc[2] = "K1"
      /\ IF tl = 0
            THEN /\ tl' = 2
                 /\ pc' = [pc EXCEPT ![2] = "K2"]
            ELSE /\ pc' = [pc EXCEPT ![2] = "R0"]
                 /\ tl' = tl
      /\ UNCHANGED << complete, data, dl, rxt, rl, txt, rwoke, twoke, whim, 
                      sres, rres, done, fin, was >>

K2 == /\ pc[2] = "K2"
      /\ was' = txt
      /\ txt' = FALSE
      /\ tl' = 0
      /\ pc' = [pc EXCEPT ![2] = "K3"]
      /\ UNCHANGED << complete, data, dl, rxt, rl, rwoke, twoke, whim, sres, 
                      rres, done, fin >>

K3 == /\ pc[2] = "K3"
      /\ IF was
            THEN /\ twoke' = TRUE
            ELSE /\ TRUE
                 /\ twoke' = twoke
      /\ pc' = [pc EXCEPT ![2] = "R0"]
      /\ UNCHANGED << complete, data, dl, rxt, rl, txt, tl, rwoke, whim, sres, 
                      rres, done, fin, was >>

P5 == /\ pc[2] = "P5"
      /\ IF dl = 0
            THEN /\ dl' = 2
                 /\ pc' = [pc EXCEPT ![2] = "P6"]
                 /\ rres' = rres
            ELSE /\ rres' = "canceled"
                 /\ pc' = [pc EXCEPT ![2] = "R0"]
                 /\ dl' = dl
      /\ UNCHANGED << complete, data, rxt, rl, txt, tl, rwoke, twoke, whim, 
                      sres, done, fin, was >>

P6 == /\ pc[2] = "P6"
      /\ IF data = "val"
            THEN /\ data' = "received"
                 /\ rres' = "item"
            ELSE /\ rres' = "canceled"
                 /\ data' = data
      /\ dl' = 0
      /\ pc' = [pc EXCEPT ![2] = "R0"]
      /\ UNCHANGED << complete, rxt, rl, txt, tl, rwoke, twoke, whim, sres, 
                      done, fin, was >>

Y0 == /\ pc[2] = "Y0"
      /\ complete' = TRUE
      /\ pc' = [pc EXCEPT ![2] = "Y1"]
      /\ UNCHANGED << data, dl, rxt, rl, txt, tl, rwoke, twoke, whim, sres, 
                      rres, done, fin, was >>

Y1 == /\ pc[2] = "Y1"
      /\ IF rl = 0
            THEN /\ rxt' = FALSE
            ELSE /\ TRUE
                 /\ rxt' = rxt
      /\ pc' = [pc EXCEPT ![2] = "Y2"]
      /\ UNCHANGED << complete, data, dl, rl, txt, tl, rwoke, twoke, whim, 
                      sres, rres, done, fin, was >>

Y2 == /\ pc[2] = "Y2"
      /\ IF tl = 0
            THEN /\ tl' = 2
                 /\ pc' = [pc EXCEPT ![2] = "Y3"]
            ELSE /\ pc' = [pc EXCEPT ![2] = "Done"]
                 /\ tl' = tl
      /\ UNCHANGED << complete, data, dl, rxt, rl, txt, rwoke, twoke, whim, 
                      sres, rres, done, fin, was >>

Y3 == /\ pc[2] = "Y3"
      /\ was' = txt
      /\ txt' = FALSE
      /\ tl' = 0
      /\ pc' = [pc EXCEPT ![2] = "Y4"]
      /\ UNCHANGED << complete, data, dl, rxt, rl, rwoke, twoke, whim, sres, 
                      rres, done, fin >>

Y4 == /\ pc[2] = "Y4"
      /\ IF was
            THEN /\ twoke' = TRUE
            ELSE /\ TRUE
                 /\ twoke' = twoke
      /\ pc' = [pc EXCEPT ![2] = "Done"]
      /\ UNCHANGED << complete, data, dl, rxt, rl, txt, tl, rwoke, whim, sres, 
                      rres, done, fin, was >>

rx == R0 \/ P0 \/ P1 \/ P2 \/ P3 \/ P4 \/ K0 \/ K1 \/ K2 \/ K3 \/ P5 \/ P6
         \/ Y0 \/ Y1 \/ Y2 \/ Y3 \/ Y4

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == tx \/ rx
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION
AllDone == \A p \in ProcSet : pc[p] = "Done"
\* A send that succeeded is received unless the receiver closed or went away first.
Conserved == AllDone => /\ (rres = "item" => sres = "ok" /\ data = "received")
                        /\ (sres = "err" => rres # "item")
NoneStranded == /\ ~(pc[2] = "P4" /\ pc[1] = "Done" /\ ~rwoke)
                /\ ~(pc[1] = "C4" /\ pc[2] = "Done" /\ ~twoke)
                /\ ~(pc[1] = "C4" /\ pc[2] = "P4" /\ complete /\ ~twoke /\ ~rwoke)
=============================================================================
