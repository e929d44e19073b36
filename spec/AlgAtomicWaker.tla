--------------------------- MODULE AlgAtomicWaker ---------------------------
(* The algorithm of AtomicWaker (futures-core, task/__internal/atomic_waker), *)
(* one atomic access per step: a task that registers (changing its waker) and  *)
(* checks a flag, Regs times over, against Wakers threads that set it and wake.  *)
(* Checked: the cell is never used by two threads at once; no wake-up is lost    *)
(* (a lost one shows up as a deadlock); the task ends (Live).                    *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Wakers, Rounds
(* --algorithm AtomicWaker
variables reg = FALSE, wking = FALSE,          \* the two state bits
          cell = 0, users = {},                \* the stored waker (0: none) and who is inside the cell
          flag = 0, woke = [r \in 1 .. Rounds |-> FALSE];
define
  CellExclusive == Cardinality(users) <= 1
  StateOK == cell \in 0 .. Rounds
end define;
process task = 0
variables round = 1, seen = 0, mine = 0;
begin
T0: while seen < Cardinality(Wakers) do
R0:   if ~reg /\ ~wking then                 \* register: WAITING -> REGISTERING
        reg := TRUE; users := users \cup {0};
R1:     cell := round; users := users \ {0};
R2:     if ~wking then reg := FALSE;         \* REGISTERING -> WAITING
        else users := users \cup {0};
R3:       mine := cell; cell := 0; users := users \ {0};
R4:       reg := FALSE; wking := FALSE;
R5:       woke[mine] := TRUE;
        end if;
      elsif ~reg /\ wking then woke[round] := TRUE;
      end if;
C0:   if flag > seen then seen := flag; round := IF round < Rounds THEN round + 1 ELSE round; 
      else
S0:     await woke[round]; woke[round] := FALSE;
      end if;
    end while;
end process;
process waker \in Wakers
variables got = 0;
begin
W0: flag := flag + 1;
W1: if ~reg /\ ~wking then wking := TRUE; users := users \cup {self};
W2:   got := cell; cell := 0; users := users \ {self};
W3:   wking := FALSE;
W4:   if got # 0 then woke[got] := TRUE; end if;
    else wking := TRUE;
    end if;
end process;
end algorithm; *)
\* BEGIN TRANSLATION
VARIABLES pc, reg, wking, cell, users, flag, woke

(* define statement *)
CellExclusive == Cardinality(users) <= 1
StateOK == cell \in 0 .. Rounds

VARIABLES round, seen, mine, got

vars == << pc, reg, wking, cell, users, flag, woke, round, seen, mine, got >>

ProcSet == {0} \cup (Wakers)

Init == (* Global variables *)
        /\ reg = FALSE
        /\ wking = FALSE
        /\ cell = 0
        /\ users = {}
        /\ flag = 0
        /\ woke = [r \in 1 .. Rounds |-> FALSE]
        (* Process task *)
        /\ round = 1
        /\ seen = 0
        /\ mine = 0
        (* Process waker *)
        /\ got = [self \in Wakers |-> 0]
        /\ pc = [self \in ProcSet |-> CASE self = 0 -> "T0"
                                        [] self \in Wakers -> "W0"]

T0 == /\ pc[0] = "T0"
      /\ IF seen < Cardinality(Wakers)
            THEN /\ pc' = [pc EXCEPT ![0] = "R0"]
            ELSE /\ pc' = [pc EXCEPT ![0] = "Done"]
      /\ UNCHANGED << reg, wking, cell, users, flag, woke, round, seen, mine, 
                      got >>

R0 == /\ pc[0] = "R0"
      /\ IF ~reg /\ ~wking
            THEN /\ reg' = TRUE
                 /\ users' = (users \cup {0})
                 /\ pc' = [pc EXCEPT ![0] = "R1"]
                 /\ woke' = woke
            ELSE /\ IF ~reg /\ wking
                       THEN /\ woke' = [woke EXCEPT ![round] = TRUE]
                       ELSE /\ TRUE
                            /\ woke' = woke
                 /\ pc' = [pc EXCEPT ![0] = "C0"]
                 /\ UNCHANGED << reg, users >>
      /\ UNCHANGED << wking, cell, flag, round, seen, mine, got >>

R1 == /\ pc[0] = "R1"
      /\ cell' = round
      /\ users' = users \ {0}
      /\ pc' = [pc EXCEPT ![0] = "R2"]
      /\ UNCHANGED << reg, wking, flag, woke, round, seen, mine, got >>

R2 == /\ pc[0] = "R2"
      /\ IF ~wking
            THEN /\ reg' = FALSE
                 /\ pc' = [pc EXCEPT ![0] = "C0"]
                 /\ users' = users
            ELSE /\ users' = (users \cup {0})
                 /\ pc' = [pc EXCEPT ![0] = "R3"]
                 /\ reg' = reg
      /\ UNCHANGED << wking, cell, flag, woke, round, seen, mine, got >>

R3 == /\ pc[0] = "R3"
      /\ mine' = cell
      /\ cell' = 0
      /\ users' = users \ {0}
      /\ pc' = [pc EXCEPT ![0] = "R4"]
      /\ UNCHANGED << reg, wking, flag, woke, round, seen, got >>

R4 == /\ pc[0] = "R4"
      /\ reg' = FALSE
      /\ wking' = FALSE
      /\ pc' = [pc EXCEPT ![0] = "R5"]
      /\ UNCHANGED << cell, users, flag, woke, round, seen, mine, got >>

R5 == /\ pc[0] = "R5"
      /\ woke' = [woke EXCEPT ![mine] = TRUE]
      /\ pc' = [pc EXCEPT ![0] = "C0"]
      /\ UNCHANGED << reg, wking, cell, users, flag, round, seen, mine, got >>

C0 == /\ pc[0] = "C0"
      /\ IF flag > seen
            THEN /\ seen' = flag
                 /\ round' = (IF round < Rounds THEN round + 1 ELSE round)
                 /\ pc' = [pc EXCEPT ![0] = "T0"]
            ELSE /\ pc' = [pc EXCEPT ![0] = "S0"]
                 /\ UNCHANGED << round, seen >>
      /\ UNCHANGED << reg, wking, cell, users, flag, woke, mine, got >>

S0 == /\ pc[0] = "S0"
      /\ woke[round]
      /\ woke' = [woke EXCEPT ![round] = FALSE]
      /\ pc' = [pc EXCEPT ![0] = "T0"]
      /\ UNCHANGED << reg, wking, cell, users, flag, round, seen, mine, got >>

task == T0 \/ R0 \/ R1 \/ R2 \/ R3 \/ R4 \/ R5 \/ C0 \/ S0

W0(self) == /\ pc[self] = "W0"
            /\ flag' = flag + 1
            /\ pc' = [pc EXCEPT ![self] = "W1"]
            /\ UNCHANGED << reg, wking, cell, users, woke, round, seen, mine, 
                            got >>

W1(self) == /\ pc[self] = "W1"
            /\ IF ~reg /\ ~wking
                  THEN /\ wking' = TRUE
                       /\ users' = (users \cup {self})
                       /\ pc' = [pc EXCEPT ![self] = "W2"]
                  ELSE /\ wking' = TRUE
                       /\ pc' = [pc EXCEPT ![self] = "Done"]
                       /\ users' = users
            /\ UNCHANGED << reg, cell, flag, woke, round, seen, mine, got >>

W2(self) == /\ pc[self] = "W2"
            /\ got' = [got EXCEPT ![self] = cell]
            /\ cell' = 0
            /\ users' = users \ {self}
            /\ pc' = [pc EXCEPT ![self] = "W3"]
            /\ UNCHANGED << reg, wking, flag, woke, round, seen, mine >>

W3(self) == /\ pc[self] = "W3"
            /\ wking' = FALSE
            /\ pc' = [pc EXCEPT ![self] = "W4"]
            /\ UNCHANGED << reg, cell, users, flag, woke, round, seen, mine, 
                            got >>

W4(self) == /\ pc[self] = "W4"
            /\ IF got[self] # 0
                  THEN /\ woke' = [woke EXCEPT ![got[self]] = TRUE]
                  ELSE /\ TRUE
                       /\ woke' = woke
            /\ pc' = [pc EXCEPT ![self] = "Done"]
            /\ UNCHANGED << reg, wking, cell, users, flag, round, seen, mine, 
                            got >>

waker(self) == W0(self) \/ W1(self) \/ W2(self) \/ W3(self) \/ W4(self)

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == task
           \/ (\E self \in Wakers: waker(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION
Live == <>(\A p \in ProcSet : pc[p] = "Done")
FairSpec == Spec /\ \A p \in ProcSet : WF_vars(IF p = 0 THEN task ELSE waker(p))
=============================================================================
