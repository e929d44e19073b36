------------------------------ MODULE AlgMpsc -------------------------------
(* The algorithm of the bounded multi-producer channel: the state word (open,      *)
(* count), the message queue and the queue of parked senders (a push first claims   *)
(* its place, then links it; pop_spin waits for the link), each sender's mutex-      *)
(* protected is_parked flag and task, and the receiver's AtomicWaker (taken as its     *)
(* specification). Senders wait for readiness and send M messages; the last one to      *)
(* go closes the channel; the receiver receives to the end and may close early.         *)
(* Checked: per-sender order, nothing lost or doubled, the bound, no sleeper is           *)
(* forgotten (deadlock).                                                                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS S, M, Buffer, Closes
Senders == 1 .. S
(* --algorithm Mpsc
variables open = TRUE, num = 0, mq = <<>>, pq = <<>>,
          parked = [s \in Senders |-> FALSE], task = [s \in Senders |-> FALSE], woke = [s \in Senders |-> FALSE],
          slot = FALSE, rwoke = FALSE, live = S, got = <<>>, ended = FALSE, closes = Closes,
          acc = [s \in Senders |-> 0];
define
  Of(s) == SelectSeq(got, LAMBDA v : v \div 10 = s)
  Ordered == \A s \in Senders : \A i \in 1 .. Len(Of(s)) : Of(s)[i] = 10 * s + i
  Bound == Len(mq) <= Buffer + S
  EndComplete == ended => \A s \in Senders : Len(Of(s)) = acc[s]
end define;
macro wakerx() begin if slot then slot := FALSE; rwoke := TRUE; end if; end macro;
process sender \in Senders
variables k = 0, maybe = FALSE, n = 0;
begin
S0: while k < M do
R0:   if ~open then k := M; goto S0; end if;          \* poll_ready
R1:   if maybe then
        if ~parked[self] then maybe := FALSE;
        else task[self] := TRUE;
R2:       await woke[self]; woke[self] := FALSE; goto R0;
        end if;
      end if;
I0:   if ~open then k := M; goto S0;                  \* inc_num_messages (one CAS)
      else num := num + 1; n := num + 1; acc[self] := acc[self] + 1;
      end if;
K0:   if n > Buffer then
        task[self] := FALSE; parked[self] := TRUE;
K1:     pq := Append(pq, [s |-> self, l |-> FALSE]);
K2:     pq := [i \in 1 .. Len(pq) |-> IF pq[i].s = self THEN [pq[i] EXCEPT !.l = TRUE] ELSE pq[i]];
K3:     maybe := open;
      end if;
M0:   mq := Append(mq, [v |-> 10 * self + k + 1, l |-> FALSE]); k := k + 1;
M1:   mq := [i \in 1 .. Len(mq) |-> IF mq[i].v = 10 * self + k THEN [mq[i] EXCEPT !.l = TRUE] ELSE mq[i]];
M2:   wakerx();
    end while;
X0: live := live - 1;
    if live = 0 then
X1:   open := FALSE;
X2:   wakerx();
    end if;
end process;
process receiver = 0
variables again = FALSE, msg = 0;
begin
G0: while ~ended do
G1:   again := FALSE;
N0:   if mq # <<>> then
N1:     await mq[1].l; msg := mq[1].v; mq := Tail(mq);
N2:     if pq # <<>> then
N3:       await pq[1].l;
          parked[pq[1].s] := FALSE || woke[pq[1].s] := woke[pq[1].s] \/ task[pq[1].s] || task[pq[1].s] := FALSE;
          pq := Tail(pq);
        end if;
N4:     num := num - 1; got := Append(got, msg); goto CL;
      else
N5:     if ~open /\ num = 0 then ended := TRUE; goto CL;
        elsif ~again then again := TRUE; slot := TRUE; goto N0;
        end if;
      end if;
Z0:   await rwoke; rwoke := FALSE;
CL:   if closes > 0 /\ ~ended then
        either closes := closes - 1; 
C0:       open := FALSE;
C1:       while pq # <<>> do
C2:         await pq[1].l;
            parked[pq[1].s] := FALSE || woke[pq[1].s] := woke[pq[1].s] \/ task[pq[1].s] || task[pq[1].s] := FALSE;
            pq := Tail(pq);
          end while;
        or skip;
        end either;
      end if;
    end while;
end process;
end algorithm; *)
\* BEGIN TRANSLATION
VARIABLES pc, open, num, mq, pq, parked, task, woke, slot, rwoke, live, got, 
          ended, closes, acc

(* define statement *)
Of(s) == SelectSeq(got, LAMBDA v : v \div 10 = s)
Ordered == \A s \in Senders : \A i \in 1 .. Len(Of(s)) : Of(s)[i] = 10 * s + i
Bound == Len(mq) <= Buffer + S
EndComplete == ended => \A s \in Senders : Len(Of(s)) = acc[s]

VARIABLES k, maybe, n, again, msg

vars == << pc, open, num, mq, pq, parked, task, woke, slot, rwoke, live, got, 
           ended, closes, acc, k, maybe, n, again, msg >>

ProcSet == (Senders) \cup {0}

Init == (* Global variables *)
        /\ open = TRUE
        /\ num = 0
        /\ mq = <<>>
        /\ pq = <<>>
        /\ parked = [s \in Senders |-> FALSE]
        /\ task = [s \in Senders |-> FALSE]
        /\ woke = [s \in Senders |-> FALSE]
        /\ slot = FALSE
        /\ rwoke = FALSE
        /\ live = S
        /\ got = <<>>
        /\ ended = FALSE
        /\ closes = Closes
        /\ acc = [s \in Senders |-> 0]
        (* Process sender *)
        /\ k = [self \in Senders |-> 0]
        /\ maybe = [self \in Senders |-> FALSE]
        /\ n = [self \in Senders |-> 0]
        (* Process receiver *)
        /\ again = FALSE
        /\ msg = 0
        /\ pc = [self \in ProcSet |-> CASE self \in Senders -> "S0"
                                        [] self = 0 -> "G0"]

S0(self) == /\ pc[self] = "S0"
            /\ IF k[self] < M
                  THEN /\ pc' = [pc EXCEPT ![self] = "R0"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "X0"]
            /\ UNCHANGED << open, num, mq, pq, parked, task, woke, slot, rwoke, 
                            live, got, ended, closes, acc, k, maybe, n, again, 
                            msg >>

R0(self) == /\ pc[self] = "R0"
            /\ IF ~open
                  THEN /\ k' = [k EXCEPT ![self] = M]
                       /\ pc' = [pc EXCEPT ![self] = "S0"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "R1"]
                       /\ k' = k
            /\ UNCHANGED << open, num, mq, pq, parked, task, woke, slot, rwoke, 
                            live, got, ended, closes, acc, maybe, n, again, 
                            msg >>

R1(self) == /\ pc[self] = "R1"
            /\ IF maybe[self]
                  THEN /\ IF ~parked[self]
                             THEN /\ maybe' = [maybe EXCEPT ![self] = FALSE]
                                  /\ pc' = [pc EXCEPT ![self] = "I0"]
                                  /\ task' = task
                             ELSE /\ task' = [task EXCEPT ![self] = TRUE]
                                  /\ pc' = [pc EXCEPT ![self] = "R2"]
                                  /\ maybe' = maybe
                  ELSE /\ pc' = [pc EXCEPT ![self] = "I0"]
                       /\ UNCHANGED << task, maybe >>
            /\ UNCHANGED << open, num, mq, pq, parked, woke, slot, rwoke, live, 
                            got, ended, closes, acc, k, n, again, msg >>

R2(self) == /\ pc[self] = "R2"
            /\ woke[self]
            /\ woke' = [woke EXCEPT ![self] = FALSE]
            /\ pc' = [pc EXCEPT ![self] = "R0"]
            /\ UNCHANGED << open, num, mq, pq, parked, task, slot, rwoke, live, 
                            got, ended, closes, acc, k, maybe, n, again, msg >>

I0(self) == /\ pc[self] = "I0"
            /\ IF ~open
                  THEN /\ k' = [k EXCEPT ![self] = M]
                       /\ pc' = [pc EXCEPT ![self] = "S0"]
                       /\ UNCHANGED << num, acc, n >>
                  ELSE /\ num' = num + 1
                       /\ n' = [n EXCEPT ![self] = num' + 1]
                       /\ acc' = [acc EXCEPT ![self] = acc[self] + 1]
                       /\ pc' = [pc EXCEPT ![self] = "K0"]
                       /\ k' = k
            /\ UNCHANGED << open, mq, pq, parked, task, woke, slot, rwoke, 
                            live, got, ended, closes, maybe, again, msg >>

K0(self) == /\ pc[self] = "K0"
            /\ IF n[self] > Buffer
                  THEN /\ task' = [task EXCEPT ![self] = FALSE]
                       /\ parked' = [parked EXCEPT ![self] = TRUE]
                       /\ pc' = [pc EXCEPT ![self] = "K1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "M0"]
                       /\ UNCHANGED << parked, task >>
            /\ UNCHANGED << open, num, mq, pq, woke, slot, rwoke, live, got, 
                            ended, closes, acc, k, maybe, n, again, msg >>

K1(self) == /\ pc[self] = "K1"
            /\ pq' = Append(pq, [s |-> self, l |-> FALSE])
            /\ pc' = [pc EXCEPT ![self] = "K2"]
            /\ UNCHANGED << open, num, mq, parked, task, woke, slot, rwoke, 
                            live, got, ended, closes, acc, k, maybe, n, again, 
                            msg >>

K2(self) == /\ pc[self] = "K2"
            /\ pq' = [i \in 1 .. Len(pq) |-> IF pq[i].s = self THEN [pq[i] EXCEPT !.l = TRUE] ELSE pq[i]]
            /\ pc' = [pc EXCEPT ![self] = "K3"]
            /\ UNCHANGED << open, num, mq, parked, task, woke, slot, rwoke, 
                            live, got, ended, closes, acc, k, maybe, n, again, 
                            msg >>

K3(self) == /\ pc[self] = "K3"
            /\ maybe' = [maybe EXCEPT ![self] = open]
            /\ pc' = [pc EXCEPT ![self] = "M0"]
            /\ UNCHANGED << open, num, mq, pq, parked, task, woke, slot, rwoke, 
                            live, got, ended, closes, acc, k, n, again, msg >>

M0(self) == /\ pc[self] = "M0"
            /\ mq' = Append(mq, [v |-> 10 * self + k[self] + 1, l |-> FALSE])
            /\ k' = [k EXCEPT ![self] = k[self] + 1]
            /\ pc' = [pc EXCEPT ![self] = "M1"]
            /\ UNCHANGED << open, num, pq, parked, task, woke, slot, rwoke, 
                            live, got, ended, closes, acc, maybe, n, again, 
                            msg >>

M1(self) == /\ pc[self] = "M1"
            /\ mq' = [i \in 1 .. Len(mq) |-> IF mq[i].v = 10 * self + k[self] THEN [mq[i] EXCEPT !.l = TRUE] ELSE mq[i]]
            /\ pc' = [pc EXCEPT ![self] = "M2"]
            /\ UNCHANGED << open, num, pq, parked, task, woke, slot, rwoke, 
                            live, got, ended, closes, acc, k, maybe, n, again, 
                            msg >>

M2(self) == /\ pc[self] = "M2"
            /\ IF slot
                  THEN /\ slot' = FALSE
                       /\ rwoke' = TRUE
                  ELSE /\ TRUE
                       /\ UNCHANGED << slot, rwoke >>
            /\ pc' = [pc EXCEPT ![self] = "S0"]
            /\ UNCHANGED << open, num, mq, pq, parked, task, woke, live, got, 
                            ended, closes, acc, k, maybe, n, again, msg >>

X0(self) == /\ pc[self] = "X0"
            /\ live' = live - 1
            /\ IF live' = 0
                  THEN /\ pc' = [pc EXCEPT ![self] = "X1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
            /\ UNCHANGED << open, num, mq, pq, parked, task, woke, slot, rwoke, 
                            got, ended, closes, acc, k, maybe, n, again, msg >>

X1(self) == /\ pc[self] = "X1"
            /\ open' = FALSE
            /\ pc' = [pc EXCEPT ![self] = "X2"]
            /\ UNCHANGED << num, mq, pq, parked, task, woke, slot, rwoke, live, 
                            got, ended, closes, acc, k, maybe, n, again, msg >>

X2(self) == /\ pc[self] = "X2"
            /\ IF slot
                  THEN /\ slot' = FALSE
                       /\ rwoke' = TRUE
                  ELSE /\ TRUE
                       /\ UNCHANGED << slot, rwoke >>
            /\ pc' = [pc EXCEPT ![self] = "Done"]
            /\ UNCHANGED << open, num, mq, pq, parked, task, woke, live, got, 
                            ended, closes, acc, k, maybe, n, again, msg >>

sender(self) == S0(self) \/ R0(self) \/ R1(self) \/ R2(self) \/ I0(self)
                   \/ K0(self) \/ K1(self) \/ K2(self) \/ K3(self)
                   \/ M0(self) \/ M1(self) \/ M2(self) \/ X0(self)
                   \/ X1(self) \/ X2(self)

G0 == /\ pc[0] = "G0"
      /\ IF ~ended
            THEN /\ pc' = [pc EXCEPT ![0] = "G1"]
            ELSE /\ pc' = [pc EXCEPT ![0] = "Done"]
      /\ UNCHANGED << open, num, mq, pq, parked, task, woke, slot, rwoke, live, 
                      got, ended, closes, acc, k, maybe, n, again, msg >>

G1 == /\ pc[0] = "G1"
      /\ again' = FALSE
      /\ pc' = [pc EXCEPT ![0] = "N0"]
      /\ UNCHANGED << open, num, mq, pq, parked, task, woke, slot, rwoke, live, 
                      got, ended, closes, acc, k, maybe, n, msg >>

N0 == /\ pc[0] = "N0"
      /\ IF mq # <<>>
            THEN /\ pc' = [pc EXCEPT ![0] = "N1"]
            ELSE /\ pc' = [pc EXCEPT ![0] = "N5"]
      /\ UNCHANGED << open, num, mq, pq, parked, task, woke, slot, rwoke, live, 
                      got, ended, closes, acc, k, maybe, n, again, msg >>

N1 == /\ pc[0] = "N1"
      /\ mq[1].l
      /\ msg' = mq[1].v
      /\ mq' = Tail(mq)
      /\ pc' = [pc EXCEPT ![0] = "N2"]
      /\ UNCHANGED << open, num, pq, parked, task, woke, slot, rwoke, live, 
                      got, ended, closes, acc, k, maybe, n, again >>

N2 == /\ pc[0] = "N2"
      /\ IF pq # <<>>
            THEN /\ pc' = [pc EXCEPT ![0] = "N3"]
            ELSE /\ pc' = [pc EXCEPT ![0] = "N4"]
      /\ UNCHANGED << open, num, mq, pq, parked, task, woke, slot, rwoke, live, 
                      got, ended, closes, acc, k, maybe, n, again, msg >>

N3 == /\ pc[0] = "N3"
      /\ pq[1].l
      /\ /\ parked' = [parked EXCEPT ![pq[1].s] = FALSE]
         /\ task' = [task EXCEPT ![pq[1].s] = FALSE]
         /\ woke' = [woke EXCEPT ![pq[1].s] = woke[pq[1].s] \/ task[pq[1].s]]
      /\ pq' = Tail(pq)
      /\ pc' = [pc EXCEPT ![0] = "N4"]
      /\ UNCHANGED << open, num, mq, slot, rwoke, live, got, ended, closes, 
                      acc, k, maybe, n, again, msg >>

N4 == /\ pc[0] = "N4"
      /\ num' = num - 1
      /\ got' = Append(got, msg)
      /\ pc' = [pc EXCEPT ![0] = "CL"]
      /\ UNCHANGED << open, mq, pq, parked, task, woke, slot, rwoke, live, 
                      ended, closes, acc, k, maybe, n, again, msg >>

N5 == /\ pc[0] = "N5"
      /\ IF ~open /\ num = 0
            THEN /\ ended' = TRUE
                 /\ pc' = [pc EXCEPT ![0] = "CL"]
                 /\ UNCHANGED << slot, again >>
            ELSE /\ IF ~again
                       THEN /\ again' = TRUE
                            /\ slot' = TRUE
                            /\ pc' = [pc EXCEPT ![0] = "N0"]
                       ELSE /\ pc' = [pc EXCEPT ![0] = "Z0"]
                            /\ UNCHANGED << slot, again >>
                 /\ ended' = ended
      /\ UNCHANGED << open, num, mq, pq, parked, task, woke, rwoke, live, got, 
                      closes, acc, k, maybe, n, msg >>

Z0 == /\ pc[0] = "Z0"
      /\ rwoke
      /\ rwoke' = FALSE
      /\ pc' = [pc EXCEPT ![0] = "CL"]
      /\ UNCHANGED << open, num, mq, pq, parked, task, woke, slot, live, got, 
                      ended, closes, acc, k, maybe, n, again, msg >>

CL == /\ pc[0] = "CL"
      /\ IF closes > 0 /\ ~ended
            THEN /\ \/ /\ closes' = closes - 1
                       /\ pc' = [pc EXCEPT ![0] = "C0"]
                    \/ /\ TRUE
                       /\ pc' = [pc EXCEPT ![0] = "G0"]
                       /\ UNCHANGED closes
            ELSE /\ pc' = [pc EXCEPT ![0] = "G0"]
                 /\ UNCHANGED closes
      /\ UNCHANGED << open, num, mq, pq, parked, task, woke, slot, rwoke, live, 
                      got, ended, acc, k, maybe, n, again, msg >>

C0 == /\ pc[0] = "C0"
      /\ open' = FALSE
      /\ pc' = [pc EXCEPT ![0] = "C1"]
      /\ UNCHANGED << num, mq, pq, parked, task, woke, slot, rwoke, live, got, 
                      ended, closes, acc, k, maybe, n, again, msg >>

C1 == /\ pc[0] = "C1"
      /\ IF pq # <<>>
            THEN /\ pc' = [pc EXCEPT ![0] = "C2"]
            ELSE /\ pc' = [pc EXCEPT ![0] = "G0"]
      /\ UNCHANGED << open, num, mq, pq, parked, task, woke, slot, rwoke, live, 
                      got, ended, closes, acc, k, maybe, n, again, msg >>

C2 == /\ pc[0] = "C2"
      /\ pq[1].l
      /\ /\ parked' = [parked EXCEPT ![pq[1].s] = FALSE]
         /\ task' = [task EXCEPT ![pq[1].s] = FALSE]
         /\ woke' = [woke EXCEPT ![pq[1].s] = woke[pq[1].s] \/ task[pq[1].s]]
      /\ pq' = Tail(pq)
      /\ pc' = [pc EXCEPT ![0] = "C1"]
      /\ UNCHANGED << open, num, mq, slot, rwoke, live, got, ended, closes, 
                      acc, k, maybe, n, again, msg >>

receiver == G0 \/ G1 \/ N0 \/ N1 \/ N2 \/ N3 \/ N4 \/ N5 \/ Z0 \/ CL \/ C0
               \/ C1 \/ C2

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == receiver
           \/ (\E self \in Senders: sender(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION
=============================================================================
