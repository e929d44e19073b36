------------------------------ MODULE AlgMutex ------------------------------
(* The algorithm of futures_util::lock::Mutex: a two-bit state word and a slab  *)
(* of waiters behind a (blocking) lock. Every task polls a lock future; when it   *)
(* is pending it sleeps, is polled again without being woken, or gives up         *)
(* (drops the future). Checked: mutual exclusion; HAS_WAITERS tells the truth     *)
(* whenever the slab's lock is free; no task sleeps for ever (deadlock).          *)
EXTENDS Naturals, FiniteSets
CONSTANTS Tasks, Rounds, GiveUps
(* --algorithm Mutex
variables locked = FALSE, hasw = FALSE,
          slab = [t \in Tasks |-> "no"],       \* "no" | "wait" | "woken"
          sl = 0,                              \* owner of the slab's lock
          woke = [t \in Tasks |-> FALSE], give = GiveUps, guard = {};
define
  Exclusive == Cardinality(guard) <= 1
  Waiting == {t \in Tasks : slab[t] # "no"}
  BitTrue == sl = 0 => (hasw <=> Waiting # {})
  Min(S) == CHOOSE x \in S : \A y \in S : x <= y
end define;
macro wakefirst() begin                        \* iter_mut().next().wake(): the first entry, woken or not
  if Waiting # {} then
    if slab[Min(Waiting)] = "wait" then slab[Min(Waiting)] := "woken" || woke[Min(Waiting)] := TRUE; end if;
  end if;
end macro;
process task \in Tasks
variables k = 0, old = FALSE, hw = FALSE, was = "no", got = FALSE;
begin
L0: while k < Rounds do
P0:   old := locked; locked := TRUE; got := ~old;
      if got then guard := guard \cup {self}; goto RM; end if;
P1:   await sl = 0; sl := self;
P2:   if slab[self] = "no" then slab[self] := "wait"; else slab[self] := "wait"; end if;
P3:   if Cardinality(Waiting) = 1 then hasw := TRUE; end if;
      sl := 0;
P4:   old := locked; locked := TRUE; got := ~old;
      if got then guard := guard \cup {self}; goto RM; end if;
PP:   either await woke[self]; woke[self] := FALSE; goto P0;
      or await give > 0; give := give - 1;    \* dropped, or polled again on a whim
         either goto P0 or goto RM; end either;
      end either;
RM:   if slab[self] # "no" then                \* remove_waker(wake_another = not acquired)
RM1:    await sl = 0; sl := self;
RM2:    was := slab[self]; slab[self] := "no";
RM3:    if was = "woken" /\ ~got then wakefirst(); end if;
RM4:    if Waiting = {} then hasw := FALSE; end if;
        sl := 0; woke[self] := FALSE;
      end if;
CS:   if got then
        guard := guard \ {self};
U0:     hw := hasw; locked := FALSE;
        if hw then
U1:       await sl = 0; sl := self;
U2:       wakefirst(); sl := 0;
        end if;
      end if;
N0:   k := k + 1; got := FALSE;
    end while;
end process;
end algorithm; *)
\* BEGIN TRANSLATION
VARIABLES pc, locked, hasw, slab, sl, woke, give, guard

(* define statement *)
Exclusive == Cardinality(guard) <= 1
Waiting == {t \in Tasks : slab[t] # "no"}
BitTrue == sl = 0 => (hasw <=> Waiting # {})
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

VARIABLES k, old, hw, was, got

vars == << pc, locked, hasw, slab, sl, woke, give, guard, k, old, hw, was, 
           got >>

ProcSet == (Tasks)

Init == (* Global variables *)
        /\ locked = FALSE
        /\ hasw = FALSE
        /\ slab = [t \in Tasks |-> "no"]
        /\ sl = 0
        /\ woke = [t \in Tasks |-> FALSE]
        /\ give = GiveUps
        /\ guard = {}
        (* Process task *)
        /\ k = [self \in Tasks |-> 0]
        /\ old = [self \in Tasks |-> FALSE]
        /\ hw = [self \in Tasks |-> FALSE]
        /\ was = [self \in Tasks |-> "no"]
        /\ got = [self \in Tasks |-> FALSE]
        /\ pc = [self \in ProcSet |-> "L0"]

L0(self) == /\ pc[self] = "L0"
            /\ IF k[self] < Rounds
                  THEN /\ pc' = [pc EXCEPT ![self] = "P0"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
            /\ UNCHANGED << locked, hasw, slab, sl, woke, give, guard, k, old, 
                            hw, was, got >>

P0(self) == /\ pc[self] = "P0"
            /\ old' = [old EXCEPT ![self] = locked]
            /\ locked' = TRUE
            /\ got' = [got EXCEPT ![self] = ~old'[self]]
            /\ IF got'[self]
                  THEN /\ guard' = (guard \cup {self})
                       /\ pc' = [pc EXCEPT ![self] = "RM"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "P1"]
                       /\ guard' = guard
            /\ UNCHANGED << hasw, slab, sl, woke, give, k, hw, was >>

P1(self) == /\ pc[self] = "P1"
            /\ sl = 0
            /\ sl' = self
            /\ pc' = [pc EXCEPT ![self] = "P2"]
            /\ UNCHANGED << locked, hasw, slab, woke, give, guard, k, old, hw, 
                            was, got >>

P2(self) == /\ pc[self] = "P2"
            /\ IF slab[self] = "no"
                  THEN /\ slab' = [slab EXCEPT ![self] = "wait"]
                  ELSE /\ slab' = [slab EXCEPT ![self] = "wait"]
            /\ pc' = [pc EXCEPT ![self] = "P3"]
            /\ UNCHANGED << locked, hasw, sl, woke, give, guard, k, old, hw, 
                            was, got >>

P3(self) == /\ pc[self] = "P3"
            /\ IF Cardinality(Waiting) = 1
                  THEN /\ hasw' = TRUE
                  ELSE /\ TRUE
                       /\ hasw' = hasw
            /\ sl' = 0
            /\ pc' = [pc EXCEPT ![self] = "P4"]
            /\ UNCHANGED << locked, slab, woke, give, guard, k, old, hw, was, 
                            got >>

P4(self) == /\ pc[self] = "P4"
            /\ old' = [old EXCEPT ![self] = locked]
            /\ locked' = TRUE
            /\ got' = [got EXCEPT ![self] = ~old'[self]]
            /\ IF got'[self]
                  THEN /\ guard' = (guard \cup {self})
                       /\ pc' = [pc EXCEPT ![self] = "RM"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "PP"]
                       /\ guard' = guard
            /\ UNCHANGED << hasw, slab, sl, woke, give, k, hw, was >>

PP(self) == /\ pc[self] = "PP"
            /\ \/ /\ woke[self]
                  /\ woke' = [woke EXCEPT ![self] = FALSE]
                  /\ pc' = [pc EXCEPT ![self] = "P0"]
                  /\ give' = give
               \/ /\ give > 0
                  /\ give' = give - 1
                  /\ \/ /\ pc' = [pc EXCEPT ![self] = "P0"]
                     \/ /\ pc' = [pc EXCEPT ![self] = "RM"]
                  /\ woke' = woke
            /\ UNCHANGED << locked, hasw, slab, sl, guard, k, old, hw, was, 
                            got >>

RM(self) == /\ pc[self] = "RM"
            /\ IF slab[self] # "no"
                  THEN /\ pc' = [pc EXCEPT ![self] = "RM1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "CS"]
            /\ UNCHANGED << locked, hasw, slab, sl, woke, give, guard, k, old, 
                            hw, was, got >>

RM1(self) == /\ pc[self] = "RM1"
             /\ sl = 0
             /\ sl' = self
             /\ pc' = [pc EXCEPT ![self] = "RM2"]
             /\ UNCHANGED << locked, hasw, slab, woke, give, guard, k, old, hw, 
                             was, got >>

RM2(self) == /\ pc[self] = "RM2"
             /\ was' = [was EXCEPT ![self] = slab[self]]
             /\ slab' = [slab EXCEPT ![self] = "no"]
             /\ pc' = [pc EXCEPT ![self] = "RM3"]
             /\ UNCHANGED << locked, hasw, sl, woke, give, guard, k, old, hw, 
                             got >>

RM3(self) == /\ pc[self] = "RM3"
             /\ IF was[self] = "woken" /\ ~got[self]
                   THEN /\ IF Waiting # {}
                              THEN /\ IF slab[Min(Waiting)] = "wait"
                                         THEN /\ /\ slab' = [slab EXCEPT ![Min(Waiting)] = "woken"]
                                                 /\ woke' = [woke EXCEPT ![Min(Waiting)] = TRUE]
                                         ELSE /\ TRUE
                                              /\ UNCHANGED << slab, woke >>
                              ELSE /\ TRUE
                                   /\ UNCHANGED << slab, woke >>
                   ELSE /\ TRUE
                        /\ UNCHANGED << slab, woke >>
             /\ pc' = [pc EXCEPT ![self] = "RM4"]
             /\ UNCHANGED << locked, hasw, sl, give, guard, k, old, hw, was, 
                             got >>

RM4(self) == /\ pc[self] = "RM4"
             /\ IF Waiting = {}
                   THEN /\ hasw' = FALSE
                   ELSE /\ TRUE
                        /\ hasw' = hasw
             /\ sl' = 0
             /\ woke' = [woke EXCEPT ![self] = FALSE]
             /\ pc' = [pc EXCEPT ![self] = "CS"]
             /\ UNCHANGED << locked, slab, give, guard, k, old, hw, was, got >>

CS(self) == /\ pc[self] = "CS"
            /\ IF got[self]
                  THEN /\ guard' = guard \ {self}
                       /\ pc' = [pc EXCEPT ![self] = "U0"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "N0"]
                       /\ guard' = guard
            /\ UNCHANGED << locked, hasw, slab, sl, woke, give, k, old, hw, 
                            was, got >>

U0(self) == /\ pc[self] = "U0"
            /\ hw' = [hw EXCEPT ![self] = hasw]
            /\ locked' = FALSE
            /\ IF hw'[self]
                  THEN /\ pc' = [pc EXCEPT ![self] = "U1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "N0"]
            /\ UNCHANGED << hasw, slab, sl, woke, give, guard, k, old, was, 
                            got >>

U1(self) == /\ pc[self] = "U1"
            /\ sl = 0
            /\ sl' = self
            /\ pc' = [pc EXCEPT ![self] = "U2"]
            /\ UNCHANGED << locked, hasw, slab, woke, give, guard, k, old, hw, 
                            was, got >>

U2(self) == /\ pc[self] = "U2"
            /\ IF Waiting # {}
                  THEN /\ IF slab[Min(Waiting)] = "wait"
                             THEN /\ /\ slab' = [slab EXCEPT ![Min(Waiting)] = "woken"]
                                     /\ woke' = [woke EXCEPT ![Min(Waiting)] = TRUE]
                             ELSE /\ TRUE
                                  /\ UNCHANGED << slab, woke >>
                  ELSE /\ TRUE
                       /\ UNCHANGED << slab, woke >>
            /\ sl' = 0
            /\ pc' = [pc EXCEPT ![self] = "N0"]
            /\ UNCHANGED << locked, hasw, give, guard, k, old, hw, was, got >>

N0(self) == /\ pc[self] = "N0"
            /\ k' = [k EXCEPT ![self] = k[self] + 1]
            /\ got' = [got EXCEPT ![self] = FALSE]
            /\ pc' = [pc EXCEPT ![self] = "L0"]
            /\ UNCHANGED << locked, hasw, slab, sl, woke, give, guard, old, hw, 
                            was >>

task(self) == L0(self) \/ P0(self) \/ P1(self) \/ P2(self) \/ P3(self)
                 \/ P4(self) \/ PP(self) \/ RM(self) \/ RM1(self)
                 \/ RM2(self) \/ RM3(self) \/ RM4(self) \/ CS(self)
                 \/ U0(self) \/ U1(self) \/ U2(self) \/ N0(self)

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == (\E self \in Tasks: task(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION
=============================================================================
