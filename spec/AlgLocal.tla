------------------------------ MODULE AlgLocal ------------------------------
(* The algorithm of block_on / LocalPool::run: the executor's thread sleeps with  *)
(* park; a waker sets the flag `unparked` and, if it was not set, makes the park   *)
(* token available. The future itself may park and unpark (Nested), using up the   *)
(* token, and strangers may unpark the thread.                                     *)
(* The task is done once every waker has opened its gate; each waker opens and      *)
(* then wakes; the future stores its waker, then looks.                             *)
(* Checked: the executor returns (deadlock otherwise), it never polls after the end, *)
(* and it polls again after every wake-up that its last poll did not see.            *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Wakers, Nested, Strangers, Spurious
(* --algorithm Local
variables unparked = FALSE, token = FALSE, armed = FALSE, open = {}, finished = FALSE;
define
  TypeOK == unparked \in BOOLEAN /\ token \in BOOLEAN
end define;
process exec = 100
variables seen = {}, n = 0, was = FALSE;
begin
X0: while TRUE do
      assert ~finished; armed := TRUE; n := 0;
X1:   while n < Nested do                        \* the future parks on its own account: may eat the token
        either if token then token := FALSE; end if; or skip; end either;
        n := n + 1;
      end while;
X2:   seen := open;
      if seen = Wakers then finished := TRUE; goto Done; end if;
X3:   was := unparked; unparked := FALSE;        \* swap(false)
      if ~was then
X4:     await token; token := FALSE; goto X3;    \* park
      end if;
    end while;
end process;
process waker \in Wakers
variables k = 0, old = FALSE;
begin
W0: while k <= Spurious do
      if k = Spurious then open := open \cup {self}; end if;
W1:   k := k + 1;
      if armed then
W2:     old := unparked; unparked := TRUE;       \* swap(true)
        if ~old then
W3:       token := TRUE;                         \* unpark
        end if;
      end if;
    end while;
end process;
process stranger \in Strangers
begin
S0: token := TRUE;
end process;
end algorithm; *)
\* BEGIN TRANSLATION
VARIABLES pc, unparked, token, armed, open, finished

(* define statement *)
TypeOK == unparked \in BOOLEAN /\ token \in BOOLEAN

VARIABLES seen, n, was, k, old

vars == << pc, unparked, token, armed, open, finished, seen, n, was, k, old
        >>

ProcSet == {100} \cup (Wakers) \cup (Strangers)

Init == (* Global variables *)
        /\ unparked = FALSE
        /\ token = FALSE
        /\ armed = FALSE
        /\ open = {}
        /\ finished = FALSE
        (* Process exec *)
        /\ seen = {}
        /\ n = 0
        /\ was = FALSE
        (* Process waker *)
        /\ k = [self \in Wakers |-> 0]
        /\ old = [self \in Wakers |-> FALSE]
        /\ pc = [self \in ProcSet |-> CASE self = 100 -> "X0"
                                        [] self \in Wakers -> "W0"
                                        [] self \in Strangers -> "S0"]

X0 == /\ pc[100] = "X0"
      /\ Assert(~finished, "Failure of assertion at line 21, column 7.")
      /\ armed' = TRUE
      /\ n' = 0
      /\ pc' = [pc EXCEPT ![100] = "X1"]
      /\ UNCHANGED << unparked, token, open, finished, seen, was, k, old >>

X1 == /\ pc[100] = "X1"
      /\ IF n < Nested
            THEN /\ \/ /\ IF token
                             THEN /\ token' = FALSE
                             ELSE /\ TRUE
                                  /\ token' = token
                    \/ /\ TRUE
                       /\ token' = token
                 /\ n' = n + 1
                 /\ pc' = [pc EXCEPT ![100] = "X1"]
            ELSE /\ pc' = [pc EXCEPT ![100] = "X2"]
                 /\ UNCHANGED << token, n >>
      /\ UNCHANGED << unparked, armed, open, finished, seen, was, k, old >>

X2 == /\ pc[100] = "X2"
      /\ seen' = open
      /\ IF seen' = Wakers
            THEN /\ finished' = TRUE
                 /\ pc' = [pc EXCEPT ![100] = "Done"]
            ELSE /\ pc' = [pc EXCEPT ![100] = "X3"]
                 /\ UNCHANGED finished
      /\ UNCHANGED << unparked, token, armed, open, n, was, k, old >>

X3 == /\ pc[100] = "X3"
      /\ was' = unparked
      /\ unparked' = FALSE
      /\ IF ~was'
            THEN /\ pc' = [pc EXCEPT ![100] = "X4"]
            ELSE /\ pc' = [pc EXCEPT ![100] = "X0"]
      /\ UNCHANGED << token, armed, open, finished, seen, n, k, old >>

X4 == /\ pc[100] = "X4"
      /\ token
      /\ token' = FALSE
      /\ pc' = [pc EXCEPT ![100] = "X3"]
      /\ UNCHANGED << unparked, armed, open, finished, seen, n, was, k, old >>

exec == X0 \/ X1 \/ X2 \/ X3 \/ X4

W0(self) == /\ pc[self] = "W0"
            /\ IF k[self] <= Spurious
                  THEN /\ IF k[self] = Spurious
                             THEN /\ open' = (open \cup {self})
                             ELSE /\ TRUE
                                  /\ open' = open
                       /\ pc' = [pc EXCEPT ![self] = "W1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
                       /\ open' = open
            /\ UNCHANGED << unparked, token, armed, finished, seen, n, was, k, 
                            old >>

W1(self) == /\ pc[self] = "W1"
            /\ k' = [k EXCEPT ![self] = k[self] + 1]
            /\ IF armed
                  THEN /\ pc' = [pc EXCEPT ![self] = "W2"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "W0"]
            /\ UNCHANGED << unparked, token, armed, open, finished, seen, n, 
                            was, old >>

W2(self) == /\ pc[self] = "W2"
            /\ old' = [old EXCEPT ![self] = unparked]
            /\ unparked' = TRUE
            /\ IF ~old'[self]
                  THEN /\ pc' = [pc EXCEPT ![self] = "W3"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "W0"]
            /\ UNCHANGED << token, armed, open, finished, seen, n, was, k >>

W3(self) == /\ pc[self] = "W3"
            /\ token' = TRUE
            /\ pc' = [pc EXCEPT ![self] = "W0"]
            /\ UNCHANGED << unparked, armed, open, finished, seen, n, was, k, 
                            old >>

waker(self) == W0(self) \/ W1(self) \/ W2(self) \/ W3(self)

S0(self) == /\ pc[self] = "S0"
            /\ token' = TRUE
            /\ pc' = [pc EXCEPT ![self] = "Done"]
            /\ UNCHANGED << unparked, armed, open, finished, seen, n, was, k, 
                            old >>

stranger(self) == S0(self)

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == exec
           \/ (\E self \in Wakers: waker(self))
           \/ (\E self \in Strangers: stranger(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION
=============================================================================
