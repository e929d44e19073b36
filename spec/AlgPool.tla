------------------------------- MODULE AlgPool ------------------------------
(* The algorithm of ThreadPool: a task's run state (UnparkMutex), the queue of   *)
(* tasks to run, the workers. The task's future is done once every one of the     *)
(* Wakers has opened its gate; each waker opens, then wakes (Spurious wakes        *)
(* before that); the future stores its waker, then looks.                          *)
(* Checked: one worker at a time polls the task, its data is there whenever it is   *)
(* taken, it is never queued twice, never polled after it finished; and it does     *)
(* finish (deadlock otherwise).                                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Workers, Wakers, Spurious
(* --algorithm Pool
variables status = "polling", data = FALSE, queue = <<"run">>, armed = FALSE, open = {},
          polling = {}, finished = FALSE, stop = FALSE;
define
  Alone == Cardinality(polling) <= 1
  OneCopy == Len(queue) + Cardinality(polling) + (IF data THEN 1 ELSE 0) <= 1
  Final == finished => status = "complete" \/ polling # {}
end define;
process worker \in Workers
variables seen = {};
begin
R0: while TRUE do
      await queue # <<>> \/ finished;
      if queue = <<>> then goto Done; end if;
R1:   if queue = <<>> then goto R0; else queue := Tail(queue); polling := polling \cup {self}; end if;
R2:   status := "polling";                       \* start_poll
R3:   assert ~finished; armed := TRUE;           \* poll: store the waker ...
R4:   seen := open;                              \* ... and look
      if seen = Wakers then finished := TRUE; goto RC; end if;
R5:   data := TRUE; polling := polling \ {self};  \* wait: put the task back, then give up the state
R6:   if status = "polling" then status := "waiting"; goto R0; else assert status = "repoll"; end if;
R7:   status := "polling";
R8:   assert data; data := FALSE; polling := polling \cup {self}; goto R3;
RC:   status := "complete"; polling := polling \ {self};
    end while;
end process;
process waker \in Wakers
variables k = 0, cur = "";
begin
W0: while k <= Spurious do
      if k = Spurious then open := open \cup {self}; end if;
W1:   k := k + 1;
      if armed then
W2:     cur := status;
W3:     if cur = "waiting" then
          if status = "waiting" then status := "polling";
W4:         assert data; data := FALSE; 
W5:         assert queue = <<>>; queue := Append(queue, "run");
          else cur := status; goto W3; end if;
        elsif cur = "polling" then
          if status = "polling" then status := "repoll"; else cur := status; goto W3; end if;
        end if;
      end if;
    end while;
end process;
end algorithm; *)
\* BEGIN TRANSLATION
VARIABLES pc, status, data, queue, armed, open, polling, finished, stop

(* define statement *)
Alone == Cardinality(polling) <= 1
OneCopy == Len(queue) + Cardinality(polling) + (IF data THEN 1 ELSE 0) <= 1
Final == finished => status = "complete" \/ polling # {}

VARIABLES seen, k, cur

vars == << pc, status, data, queue, armed, open, polling, finished, stop, 
           seen, k, cur >>

ProcSet == (Workers) \cup (Wakers)

Init == (* Global variables *)
        /\ status = "polling"
        /\ data = FALSE
        /\ queue = <<"run">>
        /\ armed = FALSE
        /\ open = {}
        /\ polling = {}
        /\ finished = FALSE
        /\ stop = FALSE
        (* Process worker *)
        /\ seen = [self \in Workers |-> {}]
        (* Process waker *)
        /\ k = [self \in Wakers |-> 0]
        /\ cur = [self \in Wakers |-> ""]
        /\ pc = [self \in ProcSet |-> CASE self \in Workers -> "R0"
                                        [] self \in Wakers -> "W0"]

R0(self) == /\ pc[self] = "R0"
            /\ queue # <<>> \/ finished
            /\ IF queue = <<>>
                  THEN /\ pc' = [pc EXCEPT ![self] = "Done"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "R1"]
            /\ UNCHANGED << status, data, queue, armed, open, polling, 
                            finished, stop, seen, k, cur >>

R1(self) == /\ pc[self] = "R1"
            /\ IF queue = <<>>
                  THEN /\ pc' = [pc EXCEPT ![self] = "R0"]
                       /\ UNCHANGED << queue, polling >>
                  ELSE /\ queue' = Tail(queue)
                       /\ polling' = (polling \cup {self})
                       /\ pc' = [pc EXCEPT ![self] = "R2"]
            /\ UNCHANGED << status, data, armed, open, finished, stop, seen, k, 
                            cur >>

R2(self) == /\ pc[self] = "R2"
            /\ status' = "polling"
            /\ pc' = [pc EXCEPT ![self] = "R3"]
            /\ UNCHANGED << data, queue, armed, open, polling, finished, stop, 
                            seen, k, cur >>

R3(self) == /\ pc[self] = "R3"
            /\ Assert(~finished, 
                      "Failure of assertion at line 27, column 7.")
            /\ armed' = TRUE
            /\ pc' = [pc EXCEPT ![self] = "R4"]
            /\ UNCHANGED << status, data, queue, open, polling, finished, stop, 
                            seen, k, cur >>

R4(self) == /\ pc[self] = "R4"
            /\ seen' = [seen EXCEPT ![self] = open]
            /\ IF seen'[self] = Wakers
                  THEN /\ finished' = TRUE
                       /\ pc' = [pc EXCEPT ![self] = "RC"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "R5"]
                       /\ UNCHANGED finished
            /\ UNCHANGED << status, data, queue, armed, open, polling, stop, k, 
                            cur >>

R5(self) == /\ pc[self] = "R5"
            /\ data' = TRUE
            /\ polling' = polling \ {self}
            /\ pc' = [pc EXCEPT ![self] = "R6"]
            /\ UNCHANGED << status, queue, armed, open, finished, stop, seen, 
                            k, cur >>

R6(self) == /\ pc[self] = "R6"
            /\ IF status = "polling"
                  THEN /\ status' = "waiting"
                       /\ pc' = [pc EXCEPT ![self] = "R0"]
                  ELSE /\ Assert(status = "repoll", 
                                 "Failure of assertion at line 31, column 69.")
                       /\ pc' = [pc EXCEPT ![self] = "R7"]
                       /\ UNCHANGED status
            /\ UNCHANGED << data, queue, armed, open, polling, finished, stop, 
                            seen, k, cur >>

R7(self) == /\ pc[self] = "R7"
            /\ status' = "polling"
            /\ pc' = [pc EXCEPT ![self] = "R8"]
            /\ UNCHANGED << data, queue, armed, open, polling, finished, stop, 
                            seen, k, cur >>

R8(self) == /\ pc[self] = "R8"
            /\ Assert(data, "Failure of assertion at line 33, column 7.")
            /\ data' = FALSE
            /\ polling' = (polling \cup {self})
            /\ pc' = [pc EXCEPT ![self] = "R3"]
            /\ UNCHANGED << status, queue, armed, open, finished, stop, seen, 
                            k, cur >>

RC(self) == /\ pc[self] = "RC"
            /\ status' = "complete"
            /\ polling' = polling \ {self}
            /\ pc' = [pc EXCEPT ![self] = "R0"]
            /\ UNCHANGED << data, queue, armed, open, finished, stop, seen, k, 
                            cur >>

worker(self) == R0(self) \/ R1(self) \/ R2(self) \/ R3(self) \/ R4(self)
                   \/ R5(self) \/ R6(self) \/ R7(self) \/ R8(self)
                   \/ RC(self)

W0(self) == /\ pc[self] = "W0"
            /\ IF k[self] <= Spurious
                  THEN /\ IF k[self] = Spurious
                             THEN /\ open' = (open \cup {self})
                             ELSE /\ TRUE
                                  /\ open' = open
                       /\ pc' = [pc EXCEPT ![self] = "W1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
                       /\ open' = open
            /\ UNCHANGED << status, data, queue, armed, polling, finished, 
                            stop, seen, k, cur >>

W1(self) == /\ pc[self] = "W1"
            /\ k' = [k EXCEPT ![self] = k[self] + 1]
            /\ IF armed
                  THEN /\ pc' = [pc EXCEPT ![self] = "W2"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "W0"]
            /\ UNCHANGED << status, data, queue, armed, open, polling, 
                            finished, stop, seen, cur >>

W2(self) == /\ pc[self] = "W2"
            /\ cur' = [cur EXCEPT ![self] = status]
            /\ pc' = [pc EXCEPT ![self] = "W3"]
            /\ UNCHANGED << status, data, queue, armed, open, polling, 
                            finished, stop, seen, k >>

W3(self) == /\ pc[self] = "W3"
            /\ IF cur[self] = "waiting"
                  THEN /\ IF status = "waiting"
                             THEN /\ status' = "polling"
                                  /\ pc' = [pc EXCEPT ![self] = "W4"]
                                  /\ cur' = cur
                             ELSE /\ cur' = [cur EXCEPT ![self] = status]
                                  /\ pc' = [pc EXCEPT ![self] = "W3"]
                                  /\ UNCHANGED status
                  ELSE /\ IF cur[self] = "polling"
                             THEN /\ IF status = "polling"
                                        THEN /\ status' = "repoll"
                                             /\ pc' = [pc EXCEPT ![self] = "W0"]
                                             /\ cur' = cur
                                        ELSE /\ cur' = [cur EXCEPT ![self] = status]
                                             /\ pc' = [pc EXCEPT ![self] = "W3"]
                                             /\ UNCHANGED status
                             ELSE /\ pc' = [pc EXCEPT ![self] = "W0"]
                                  /\ UNCHANGED << status, cur >>
            /\ UNCHANGED << data, queue, armed, open, polling, finished, stop, 
                            seen, k >>

W4(self) == /\ pc[self] = "W4"
            /\ Assert(data, "Failure of assertion at line 47, column 13.")
            /\ data' = FALSE
            /\ pc' = [pc EXCEPT ![self] = "W5"]
            /\ UNCHANGED << status, queue, armed, open, polling, finished, 
                            stop, seen, k, cur >>

W5(self) == /\ pc[self] = "W5"
            /\ Assert(queue = <<>>, 
                      "Failure of assertion at line 48, column 13.")
            /\ queue' = Append(queue, "run")
            /\ pc' = [pc EXCEPT ![self] = "W0"]
            /\ UNCHANGED << status, data, armed, open, polling, finished, stop, 
                            seen, k, cur >>

waker(self) == W0(self) \/ W1(self) \/ W2(self) \/ W3(self) \/ W4(self)
                  \/ W5(self)

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == (\E self \in Workers: worker(self))
           \/ (\E self \in Wakers: waker(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION
=============================================================================
