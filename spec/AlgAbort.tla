------------------------------ MODULE AlgAbort ------------------------------
(* The algorithm of Abortable / RemoteHandle-style cancellation: check the flag,    *)
(* poll, register, check the flag again; the handle sets the flag, then wakes.        *)
(* The AtomicWaker is taken as its specification. Checked: an aborted task that is     *)
(* asleep is woken and ends as aborted (deadlock); the inner computation is not         *)
(* started again after the abort was seen.                                              *)
EXTENDS Naturals, TLC
CONSTANTS Handles, Polls
(* --algorithm Abort
variables aborted = FALSE, slot = FALSE, woke = FALSE, open = FALSE, iwake = FALSE, res = "none";
process task = 0
variables left = Polls, ok = FALSE;
begin
A0: while res = "none" do
      if aborted then res := "aborted"; goto A0; end if;
A1:   ok := open; iwake := TRUE;
A2:   if ok then res := "item"; goto A0; end if;
A3:   slot := TRUE;
A4:   if aborted then res := "aborted"; goto A0; end if;
A5:   either await woke; woke := FALSE;
      or await left > 0; left := left - 1;
      end either;
    end while;
end process;
process handle \in Handles
variables had = FALSE;
begin
H0: aborted := TRUE;
H1: had := slot; slot := FALSE;
H2: if had then woke := TRUE; end if;
end process;
process opener = 99
variables had = FALSE;
begin
O0: either open := TRUE;
O1:   had := iwake; iwake := FALSE;
O2:   if had then woke := TRUE; end if;
    or skip;
    end either;
end process;
end algorithm; *)
\* BEGIN TRANSLATION
\* Process variable had of process handle at line 26 col 11 changed to had_
VARIABLES pc, aborted, slot, woke, open, iwake, res, left, ok, had_, had

vars == << pc, aborted, slot, woke, open, iwake, res, left, ok, had_, had >>

ProcSet == {0} \cup (Handles) \cup {99}

Init == (* Global variables *)
        /\ aborted = FALSE
        /\ slot = FALSE
        /\ woke = FALSE
        /\ open = FALSE
        /\ iwake = FALSE
        /\ res = "none"
        (* Process task *)
        /\ left = Polls
        /\ ok = FALSE
        (* Process handle *)
        /\ had_ = [self \in Handles |-> FALSE]
        (* Process opener *)
        /\ had = FALSE
        /\ pc = [self \in ProcSet |-> CASE self = 0 -> "A0"
                                        [] self \in Handles -> "H0"
                                        [] self = 99 -> "O0"]

A0 == /\ pc[0] = "A0"
      /\ IF res = "none"
            THEN /\ IF aborted
                       THEN /\ res' = "aborted"
                            /\ pc' = [pc EXCEPT ![0] = "A0"]
                       ELSE /\ pc' = [pc EXCEPT ![0] = "A1"]
                            /\ res' = res
            ELSE /\ pc' = [pc EXCEPT ![0] = "Done"]
                 /\ res' = res
      /\ UNCHANGED << aborted, slot, woke, open, iwake, left, ok, had_, had >>

A1 == /\ pc[0] = "A1"
      /\ ok' = open
      /\ iwake' = TRUE
      /\ pc' = [pc EXCEPT ![0] = "A2"]
      /\ UNCHANGED << aborted, slot, woke, open, res, left, had_, had >>

A2 == /\ pc[0] = "A2"
      /\ IF ok
            THEN /\ res' = "item"
                 /\ pc' = [pc EXCEPT ![0] = "A0"]
            ELSE /\ pc' = [pc EXCEPT ![0] = "A3"]
                 /\ res' = res
      /\ UNCHANGED << aborted, slot, woke, open, iwake, left, ok, had_, had >>

A3 == /\ pc[0] = "A3"
      /\ slot' = TRUE
      /\ pc' = [pc EXCEPT ![0] = "A4"]
      /\ UNCHANGED << aborted, woke, open, iwake, res, left, ok, had_, had >>

A4 == /\ pc[0] = "A4"
      /\ IF aborted
            THEN /\ res' = "aborted"
                 /\ pc' = [pc EXCEPT ![0] = "A0"]
            ELSE /\ pc' = [pc EXCEPT ![0] = "A5"]
                 /\ res' = res
      /\ UNCHANGED << aborted, slot, woke, open, iwake, left, ok, had_, had >>

A5 == /\ pc[0] = "A5"
      /\ \/ /\ woke
            /\ woke' = FALSE
            /\ left' = left
         \/ /\ left > 0
            /\ left' = left - 1
            /\ woke' = woke
      /\ pc' = [pc EXCEPT ![0] = "A0"]
      /\ UNCHANGED << aborted, slot, open, iwake, res, ok, had_, had >>

task == A0 \/ A1 \/ A2 \/ A3 \/ A4 \/ A5

H0(self) == /\ pc[self] = "H0"
            /\ aborted' = TRUE
            /\ pc' = [pc EXCEPT ![self] = "H1"]
            /\ UNCHANGED << slot, woke, open, iwake, res, left, ok, had_, had >>

H1(self) == /\ pc[self] = "H1"
            /\ had_' = [had_ EXCEPT ![self] = slot]
            /\ slot' = FALSE
            /\ pc' = [pc EXCEPT ![self] = "H2"]
            /\ UNCHANGED << aborted, woke, open, iwake, res, left, ok, had >>

H2(self) == /\ pc[self] = "H2"
            /\ IF had_[self]
                  THEN /\ woke' = TRUE
                  ELSE /\ TRUE
                       /\ woke' = woke
            /\ pc' = [pc EXCEPT ![self] = "Done"]
            /\ UNCHANGED << aborted, slot, open, iwake, res, left, ok, had_, 
                            had >>

handle(self) == H0(self) \/ H1(self) \/ H2(self)

O0 == /\ pc[99] = "O0"
      /\ \/ /\ open' = TRUE
            /\ pc' = [pc EXCEPT ![99] = "O1"]
         \/ /\ TRUE
            /\ pc' = [pc EXCEPT ![99] = "Done"]
            /\ open' = open
      /\ UNCHANGED << aborted, slot, woke, iwake, res, left, ok, had_, had >>

O1 == /\ pc[99] = "O1"
      /\ had' = iwake
      /\ iwake' = FALSE
      /\ pc' = [pc EXCEPT ![99] = "O2"]
      /\ UNCHANGED << aborted, slot, woke, open, res, left, ok, had_ >>

O2 == /\ pc[99] = "O2"
      /\ IF had
            THEN /\ woke' = TRUE
            ELSE /\ TRUE
                 /\ woke' = woke
      /\ pc' = [pc EXCEPT ![99] = "Done"]
      /\ UNCHANGED << aborted, slot, open, iwake, res, left, ok, had_, had >>

opener == O0 \/ O1 \/ O2

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == task \/ opener
           \/ (\E self \in Handles: handle(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION
Right == (res = "aborted" => aborted) /\ (res = "item" => open)
=============================================================================
