----------------------------- MODULE AlgTaskSet -----------------------------
(* The algorithm of FuturesUnordered: an intrusive queue of ready tasks (swap the   *)
(* head, then link), the per-task queued flag, and the owner's AtomicWaker (taken     *)
(* as its specification: register/wake are atomic here, see AlgAtomicWaker).           *)
(* Each task is completed by its own thread: open, then wake, Spurious wakes before.   *)
(* Checked: every output is handed out once; a task is never in the queue twice and     *)
(* never polled by two; no completed task is forgotten (deadlock of the owner).         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Tasks, Spurious
Stub == 0
Nil == 99
(* --algorithm TaskSet
variables next = [i \in Tasks \cup {Stub} |-> Nil], head = Stub, tail = Stub,
          queued = [i \in Tasks |-> TRUE], inset = Tasks, open = {}, armed = {},
          slot = FALSE, woke = FALSE, out = <<>>, started = FALSE;
define
  Once == \A i, j \in 1 .. Len(out) : i # j => out[i] # out[j]
end define;
macro wakeowner() begin if slot then slot := FALSE; woke := TRUE; end if; end macro;
process owner = 100
variables t = Nil, n = Nil, prev = Nil, todo = Tasks, res = "", deq = Nil;
begin
A0: while todo # {} do                          \* push: link and enqueue every task (no concurrency yet)
      with i \in todo do
        next := [next EXCEPT ![i] = Nil, ![head] = i]; head := i; todo := todo \ {i};
      end with;
    end while;
    started := TRUE;
N0: while inset # {} do
      slot := TRUE;                             \* waker.register
D0:   t := tail; n := next[tail];
      if t = Stub then
        if n = Nil then res := "empty"; goto DR; end if;
D1:     tail := n; t := n; n := next[n];
      end if;
D2:   if n # Nil then tail := n; deq := t; res := "data"; goto DR; end if;
D3:   if head # t then res := "inconsistent"; goto DR; end if;
D4:   next[Stub] := Nil;
D5:   prev := head; head := Stub;
D6:   next[prev] := Stub;
D7:   n := next[t];
      if n # Nil then tail := n; deq := t; res := "data"; else res := "inconsistent"; end if;
DR:   if res = "inconsistent" then woke := FALSE; slot := FALSE; goto N0;   \* wakes itself: polled again
      elsif res = "empty" then
SL:     await woke; woke := FALSE; goto N0;
      end if;
QN:   if deq \notin inset then goto D0; end if;  \* its future is gone already
Q0:   assert queued[deq]; queued[deq] := FALSE;
I0:   armed := armed \cup {deq};                \* poll: the future stores its waker and looks whether it is done
I1:   if deq \in open then
        out := Append(out, deq); inset := inset \ {deq};
I2:     queued[deq] := TRUE;                    \* release_task
        slot := FALSE; woke := FALSE;           \* returned an item: the caller polls again at once
      else goto D0;
      end if;
    end while;
end process;
process other \in {10 * i : i \in Tasks}
variables k = 0, was = FALSE, p = Nil, has = FALSE;
begin
W0: await started;
W1: while k <= Spurious do
      if k = Spurious then open := open \cup {self \div 10}; end if;
W2:   has := (self \div 10) \in armed; k := k + 1;
      if has then
W3:     was := queued[self \div 10]; queued[self \div 10] := TRUE;
        if ~was then
E0:       next[self \div 10] := Nil;
E1:       p := head; head := self \div 10;
E2:       next[p] := self \div 10;
E3:       wakeowner();
        end if;
      end if;
    end while;
end process;
end algorithm; *)
\* BEGIN TRANSLATION
VARIABLES pc, next, head, tail, queued, inset, open, armed, slot, woke, out, 
          started

(* define statement *)
Once == \A i, j \in 1 .. Len(out) : i # j => out[i] # out[j]

VARIABLES t, n, prev, todo, res, deq, k, was, p, has

vars == << pc, next, head, tail, queued, inset, open, armed, slot, woke, out, 
           started, t, n, prev, todo, res, deq, k, was, p, has >>

ProcSet == {100} \cup ({10 * i : i \in Tasks})

Init == (* Global variables *)
        /\ next = [i \in Tasks \cup {Stub} |-> Nil]
        /\ head = Stub
        /\ tail = Stub
        /\ queued = [i \in Tasks |-> TRUE]
        /\ inset = Tasks
        /\ open = {}
        /\ armed = {}
        /\ slot = FALSE
        /\ woke = FALSE
        /\ out = <<>>
        /\ started = FALSE
        (* Process owner *)
        /\ t = Nil
        /\ n = Nil
        /\ prev = Nil
        /\ todo = Tasks
        /\ res = ""
        /\ deq = Nil
        (* Process other *)
        /\ k = [self \in {10 * i : i \in Tasks} |-> 0]
        /\ was = [self \in {10 * i : i \in Tasks} |-> FALSE]
        /\ p = [self \in {10 * i : i \in Tasks} |-> Nil]
        /\ has = [self \in {10 * i : i \in Tasks} |-> FALSE]
        /\ pc = [self \in ProcSet |-> CASE self = 100 -> "A0"
                                        [] self \in {10 * i : i \in Tasks} -> "W0"]

A0 == /\ pc[100] = "A0"
      /\ IF todo # {}
            THEN /\ \E i \in todo:
                      /\ next' = [next EXCEPT ![i] = Nil, ![head] = i]
                      /\ head' = i
                      /\ todo' = todo \ {i}
                 /\ pc' = [pc EXCEPT ![100] = "A0"]
                 /\ UNCHANGED started
            ELSE /\ started' = TRUE
                 /\ pc' = [pc EXCEPT ![100] = "N0"]
                 /\ UNCHANGED << next, head, todo >>
      /\ UNCHANGED << tail, queued, inset, open, armed, slot, woke, out, t, n, 
                      prev, res, deq, k, was, p, has >>

N0 == /\ pc[100] = "N0"
      /\ IF inset # {}
            THEN /\ slot' = TRUE
                 /\ pc' = [pc EXCEPT ![100] = "D0"]
            ELSE /\ pc' = [pc EXCEPT ![100] = "Done"]
                 /\ slot' = slot
      /\ UNCHANGED << next, head, tail, queued, inset, open, armed, woke, out, 
                      started, t, n, prev, todo, res, deq, k, was, p, has >>

D0 == /\ pc[100] = "D0"
      /\ t' = tail
      /\ n' = next[tail]
      /\ IF t' = Stub
            THEN /\ IF n' = Nil
                       THEN /\ res' = "empty"
                            /\ pc' = [pc EXCEPT ![100] = "DR"]
                       ELSE /\ pc' = [pc EXCEPT ![100] = "D1"]
                            /\ res' = res
            ELSE /\ pc' = [pc EXCEPT ![100] = "D2"]
                 /\ res' = res
      /\ UNCHANGED << next, head, tail, queued, inset, open, armed, slot, woke, 
                      out, started, prev, todo, deq, k, was, p, has >>

D1 == /\ pc[100] = "D1"
      /\ tail' = n
      /\ t' = n
      /\ n' = next[n]
      /\ pc' = [pc EXCEPT ![100] = "D2"]
      /\ UNCHANGED << next, head, queued, inset, open, armed, slot, woke, out, 
                      started, prev, todo, res, deq, k, was, p, has >>

D2 == /\ pc[100] = "D2"
      /\ IF n # Nil
            THEN /\ tail' = n
                 /\ deq' = t
                 /\ res' = "data"
                 /\ pc' = [pc EXCEPT ![100] = "DR"]
            ELSE /\ pc' = [pc EXCEPT ![100] = "D3"]
                 /\ UNCHANGED << tail, res, deq >>
      /\ UNCHANGED << next, head, queued, inset, open, armed, slot, woke, out, 
                      started, t, n, prev, todo, k, was, p, has >>

D3 == /\ pc[100] = "D3"
      /\ IF head # t
            THEN /\ res' = "inconsistent"
                 /\ pc' = [pc EXCEPT ![100] = "DR"]
            ELSE /\ pc' = [pc EXCEPT ![100] = "D4"]
                 /\ res' = res
      /\ UNCHANGED << next, head, tail, queued, inset, open, armed, slot, woke, 
                      out, started, t, n, prev, todo, deq, k, was, p, has >>

D4 == /\ pc[100] = "D4"
      /\ next' = [next EXCEPT ![Stub] = Nil]
      /\ pc' = [pc EXCEPT ![100] = "D5"]
      /\ UNCHANGED << head, tail, queued, inset, open, armed, slot, woke, out, 
                      started, t, n, prev, todo, res, deq, k, was, p, has >>

D5 == /\ pc[100] = "D5"
      /\ prev' = head
      /\ head' = Stub
      /\ pc' = [pc EXCEPT ![100] = "D6"]
      /\ UNCHANGED << next, tail, queued, inset, open, armed, slot, woke, out, 
                      started, t, n, todo, res, deq, k, was, p, has >>

D6 == /\ pc[100] = "D6"
      /\ next' = [next EXCEPT ![prev] = Stub]
      /\ pc' = [pc EXCEPT ![100] = "D7"]
      /\ UNCHANGED << head, tail, queued, inset, open, armed, slot, woke, out, 
                      started, t, n, prev, todo, res, deq, k, was, p, has >>

D7 == /\ pc[100] = "D7"
      /\ n' = next[t]
      /\ IF n' # Nil
            THEN /\ tail' = n'
                 /\ deq' = t
                 /\ res' = "data"
            ELSE /\ res' = "inconsistent"
                 /\ UNCHANGED << tail, deq >>
      /\ pc' = [pc EXCEPT ![100] = "DR"]
      /\ UNCHANGED << next, head, queued, inset, open, armed, slot, woke, out, 
                      started, t, prev, todo, k, was, p, has >>

DR == /\ pc[100] = "DR"
      /\ IF res = "inconsistent"
            THEN /\ woke' = FALSE
                 /\ slot' = FALSE
                 /\ pc' = [pc EXCEPT ![100] = "N0"]
            ELSE /\ IF res = "empty"
                       THEN /\ pc' = [pc EXCEPT ![100] = "SL"]
                       ELSE /\ pc' = [pc EXCEPT ![100] = "QN"]
                 /\ UNCHANGED << slot, woke >>
      /\ UNCHANGED << next, head, tail, queued, inset, open, armed, out, 
                      started, t, n, prev, todo, res, deq, k, was, p, has >>

SL == /\ pc[100] = "SL"
      /\ woke
      /\ woke' = FALSE
      /\ pc' = [pc EXCEPT ![100] = "N0"]
      /\ UNCHANGED << next, head, tail, queued, inset, open, armed, slot, out, 
                      started, t, n, prev, todo, res, deq, k, was, p, has >>

QN == /\ pc[100] = "QN"
      /\ IF deq \notin inset
            THEN /\ pc' = [pc EXCEPT ![100] = "D0"]
            ELSE /\ pc' = [pc EXCEPT ![100] = "Q0"]
      /\ UNCHANGED << next, head, tail, queued, inset, open, armed, slot, woke, 
                      out, started, t, n, prev, todo, res, deq, k, was, p, has >>

Q0 == /\ pc[100] = "Q0"
      /\ Assert(queued[deq], "Failure of assertion at line 48, column 7.")
      /\ queued' = [queued EXCEPT ![deq] = FALSE]
      /\ pc' = [pc EXCEPT ![100] = "I0"]
      /\ UNCHANGED << next, head, tail, inset, open, armed, slot, woke, out, 
                      started, t, n, prev, todo, res, deq, k, was, p, has >>

I0 == /\ pc[100] = "I0"
      /\ armed' = (armed \cup {deq})
      /\ pc' = [pc EXCEPT ![100] = "I1"]
      /\ UNCHANGED << next, head, tail, queued, inset, open, slot, woke, out, 
                      started, t, n, prev, todo, res, deq, k, was, p, has >>

I1 == /\ pc[100] = "I1"
      /\ IF deq \in open
            THEN /\ out' = Append(out, deq)
                 /\ inset' = inset \ {deq}
                 /\ pc' = [pc EXCEPT ![100] = "I2"]
            ELSE /\ pc' = [pc EXCEPT ![100] = "D0"]
                 /\ UNCHANGED << inset, out >>
      /\ UNCHANGED << next, head, tail, queued, open, armed, slot, woke, 
                      started, t, n, prev, todo, res, deq, k, was, p, has >>

I2 == /\ pc[100] = "I2"
      /\ queued' = [queued EXCEPT ![deq] = TRUE]
      /\ slot' = FALSE
      /\ woke' = FALSE
      /\ pc' = [pc EXCEPT ![100] = "N0"]
      /\ UNCHANGED << next, head, tail, inset, open, armed, out, started, t, n, 
                      prev, todo, res, deq, k, was, p, has >>

owner == A0 \/ N0 \/ D0 \/ D1 \/ D2 \/ D3 \/ D4 \/ D5 \/ D6 \/ D7 \/ DR
            \/ SL \/ QN \/ Q0 \/ I0 \/ I1 \/ I2

W0(self) == /\ pc[self] = "W0"
            /\ started
            /\ pc' = [pc EXCEPT ![self] = "W1"]
            /\ UNCHANGED << next, head, tail, queued, inset, open, armed, slot, 
                            woke, out, started, t, n, prev, todo, res, deq, k, 
                            was, p, has >>

W1(self) == /\ pc[self] = "W1"
            /\ IF k[self] <= Spurious
                  THEN /\ IF k[self] = Spurious
                             THEN /\ open' = (open \cup {self \div 10})
                             ELSE /\ TRUE
                                  /\ open' = open
                       /\ pc' = [pc EXCEPT ![self] = "W2"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
                       /\ open' = open
            /\ UNCHANGED << next, head, tail, queued, inset, armed, slot, woke, 
                            out, started, t, n, prev, todo, res, deq, k, was, 
                            p, has >>

W2(self) == /\ pc[self] = "W2"
            /\ has' = [has EXCEPT ![self] = (self \div 10) \in armed]
            /\ k' = [k EXCEPT ![self] = k[self] + 1]
            /\ IF has'[self]
                  THEN /\ pc' = [pc EXCEPT ![self] = "W3"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "W1"]
            /\ UNCHANGED << next, head, tail, queued, inset, open, armed, slot, 
                            woke, out, started, t, n, prev, todo, res, deq, 
                            was, p >>

W3(self) == /\ pc[self] = "W3"
            /\ was' = [was EXCEPT ![self] = queued[self \div 10]]
            /\ queued' = [queued EXCEPT ![self \div 10] = TRUE]
            /\ IF ~was'[self]
                  THEN /\ pc' = [pc EXCEPT ![self] = "E0"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "W1"]
            /\ UNCHANGED << next, head, tail, inset, open, armed, slot, woke, 
                            out, started, t, n, prev, todo, res, deq, k, p, 
                            has >>

E0(self) == /\ pc[self] = "E0"
            /\ next' = [next EXCEPT ![self \div 10] = Nil]
            /\ pc' = [pc EXCEPT ![self] = "E1"]
            /\ UNCHANGED << head, tail, queued, inset, open, armed, slot, woke, 
                            out, started, t, n, prev, todo, res, deq, k, was, 
                            p, has >>

E1(self) == /\ pc[self] = "E1"
            /\ p' = [p EXCEPT ![self] = head]
            /\ head' = (self \div 10)
            /\ pc' = [pc EXCEPT ![self] = "E2"]
            /\ UNCHANGED << next, tail, queued, inset, open, armed, slot, woke, 
                            out, started, t, n, prev, todo, res, deq, k, was, 
                            has >>

E2(self) == /\ pc[self] = "E2"
            /\ next' = [next EXCEPT ![p[self]] = self \div 10]
            /\ pc' = [pc EXCEPT ![self] = "E3"]
            /\ UNCHANGED << head, tail, queued, inset, open, armed, slot, woke, 
                            out, started, t, n, prev, todo, res, deq, k, was, 
                            p, has >>

E3(self) == /\ pc[self] = "E3"
            /\ IF slot
                  THEN /\ slot' = FALSE
                       /\ woke' = TRUE
                  ELSE /\ TRUE
                       /\ UNCHANGED << slot, woke >>
            /\ pc' = [pc EXCEPT ![self] = "W1"]
            /\ UNCHANGED << next, head, tail, queued, inset, open, armed, out, 
                            started, t, n, prev, todo, res, deq, k, was, p, 
                            has >>

other(self) == W0(self) \/ W1(self) \/ W2(self) \/ W3(self) \/ E0(self)
                  \/ E1(self) \/ E2(self) \/ E3(self)

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == owner
           \/ (\E self \in {10 * i : i \in Tasks}: other(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION
AllOut == pc[100] = "Done" => Len(out) = Cardinality(Tasks)
=============================================================================
