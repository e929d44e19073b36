----------------------------- MODULE AlgBiLock ------------------------------
(* The algorithm of BiLock: one word that is 0 (free), 1 (locked) or a boxed     *)
(* waker. Two halves lock and unlock Rounds times each; a pending half sleeps,    *)
(* is polled on a whim, or turns to something else without its lock.              *)
(* Checked: mutual exclusion; the panics of the code are unreachable; nobody      *)
(* sleeps for ever (deadlock); no box is leaked or freed twice.                    *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Rounds, Whims
(* --algorithm BiLock
variables state = "free", guard = {}, woke = [h \in {1, 2} |-> FALSE], whim = Whims, boxes = 0;
define
  Exclusive == Cardinality(guard) <= 1
  Boxes == boxes \in 0 .. 4
end define;
process half \in {1, 2}
variables k = 0, n = "free", box = FALSE;
begin
H0: while k < Rounds do
P0:   n := state; state := "locked";
      if n = "free" then guard := guard \cup {self};
        if box then boxes := boxes - 1; box := FALSE; end if; goto CS;
      elsif n # "locked" then assert ~box; box := TRUE;   \* took the parked waker's box over
      end if;
P1:   if ~box then box := TRUE; boxes := boxes + 1; end if;
P2:   if state = "locked" then state := IF self = 1 THEN "w1" ELSE "w2"; box := FALSE;
      elsif state = "free" then goto P0;
      else assert FALSE;                                    \* panic!("invalid state")
      end if;
PP:   either await woke[self]; woke[self] := FALSE; goto P0;
        or await whim > 0; whim := whim - 1; goto P0;
        end either;
CS:   guard := guard \ {self};
U0:   n := state; state := "free";
      assert n # "free";                                    \* panic!("invalid unlocked state")
U1:   if n # "locked" then boxes := boxes - 1; woke[IF n = "w1" THEN 1 ELSE 2] := TRUE; end if;
      k := k + 1;
    end while;
end process;
end algorithm; *)
\* BEGIN TRANSLATION
VARIABLES pc, state, guard, woke, whim, boxes

(* define statement *)
Exclusive == Cardinality(guard) <= 1
Boxes == boxes \in 0 .. 4

VARIABLES k, n, box

vars == << pc, state, guard, woke, whim, boxes, k, n, box >>

ProcSet == ({1, 2})

Init == (* Global variables *)
        /\ state = "free"
        /\ guard = {}
        /\ woke = [h \in {1, 2} |-> FALSE]
        /\ whim = Whims
        /\ boxes = 0
        (* Process half *)
        /\ k = [self \in {1, 2} |-> 0]
        /\ n = [self \in {1, 2} |-> "free"]
        /\ box = [self \in {1, 2} |-> FALSE]
        /\ pc = [self \in ProcSet |-> "H0"]

H0(self) == /\ pc[self] = "H0"
            /\ IF k[self] < Rounds
                  THEN /\ pc' = [pc EXCEPT ![self] = "P0"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
            /\ UNCHANGED << state, guard, woke, whim, boxes, k, n, box >>

P0(self) == /\ pc[self] = "P0"
            /\ n' = [n EXCEPT ![self] = state]
            /\ state' = "locked"
            /\ IF n'[self] = "free"
                  THEN /\ guard' = (guard \cup {self})
                       /\ IF box[self]
                             THEN /\ boxes' = boxes - 1
                                  /\ box' = [box EXCEPT ![self] = FALSE]
                             ELSE /\ TRUE
                                  /\ UNCHANGED << boxes, box >>
                       /\ pc' = [pc EXCEPT ![self] = "CS"]
                  ELSE /\ IF n'[self] # "locked"
                             THEN /\ Assert(~box[self], 
                                            "Failure of assertion at line 22, column 31.")
                                  /\ box' = [box EXCEPT ![self] = TRUE]
                             ELSE /\ TRUE
                                  /\ box' = box
                       /\ pc' = [pc EXCEPT ![self] = "P1"]
                       /\ UNCHANGED << guard, boxes >>
            /\ UNCHANGED << woke, whim, k >>

P1(self) == /\ pc[self] = "P1"
            /\ IF ~box[self]
                  THEN /\ box' = [box EXCEPT ![self] = TRUE]
                       /\ boxes' = boxes + 1
                  ELSE /\ TRUE
                       /\ UNCHANGED << boxes, box >>
            /\ pc' = [pc EXCEPT ![self] = "P2"]
            /\ UNCHANGED << state, guard, woke, whim, k, n >>

P2(self) == /\ pc[self] = "P2"
            /\ IF state = "locked"
                  THEN /\ state' = (IF self = 1 THEN "w1" ELSE "w2")
                       /\ box' = [box EXCEPT ![self] = FALSE]
                       /\ pc' = [pc EXCEPT ![self] = "PP"]
                  ELSE /\ IF state = "free"
                             THEN /\ pc' = [pc EXCEPT ![self] = "P0"]
                             ELSE /\ Assert(FALSE, 
                                            "Failure of assertion at line 27, column 12.")
                                  /\ pc' = [pc EXCEPT ![self] = "PP"]
                       /\ UNCHANGED << state, box >>
            /\ UNCHANGED << guard, woke, whim, boxes, k, n >>

PP(self) == /\ pc[self] = "PP"
            /\ \/ /\ woke[self]
                  /\ woke' = [woke EXCEPT ![self] = FALSE]
                  /\ pc' = [pc EXCEPT ![self] = "P0"]
                  /\ whim' = whim
               \/ /\ whim > 0
                  /\ whim' = whim - 1
                  /\ pc' = [pc EXCEPT ![self] = "P0"]
                  /\ woke' = woke
            /\ UNCHANGED << state, guard, boxes, k, n, box >>

CS(self) == /\ pc[self] = "CS"
            /\ guard' = guard \ {self}
            /\ pc' = [pc EXCEPT ![self] = "U0"]
            /\ UNCHANGED << state, woke, whim, boxes, k, n, box >>

U0(self) == /\ pc[self] = "U0"
            /\ n' = [n EXCEPT ![self] = state]
            /\ state' = "free"
            /\ Assert(n'[self] # "free", 
                      "Failure of assertion at line 34, column 7.")
            /\ pc' = [pc EXCEPT ![self] = "U1"]
            /\ UNCHANGED << guard, woke, whim, boxes, k, box >>

U1(self) == /\ pc[self] = "U1"
            /\ IF n[self] # "locked"
                  THEN /\ boxes' = boxes - 1
                       /\ woke' = [woke EXCEPT ![IF n[self] = "w1" THEN 1 ELSE 2] = TRUE]
                  ELSE /\ TRUE
                       /\ UNCHANGED << woke, boxes >>
            /\ k' = [k EXCEPT ![self] = k[self] + 1]
            /\ pc' = [pc EXCEPT ![self] = "H0"]
            /\ UNCHANGED << state, guard, whim, n, box >>

half(self) == H0(self) \/ P0(self) \/ P1(self) \/ P2(self) \/ PP(self)
                 \/ CS(self) \/ U0(self) \/ U1(self)

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == (\E self \in {1, 2}: half(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION
Clean == (\A p \in ProcSet : pc[p] = "Done") => boxes = 0 /\ state = "free"
=============================================================================
