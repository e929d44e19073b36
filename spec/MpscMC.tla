------------------------------ MODULE MpscMC ------------------------------
(* Exhaustive check of the channel design: every interleaving of the steps  *)
(* of S sending threads (M messages each) and one receiver.                  *)
EXTENDS Mpsc
CONSTANTS S, M, B
VARIABLES s, pc, sent, got, ended
vars == <<s, pc, sent, got, ended>>
\* pc[t] = <<call event, phase>> or <<>>; sent[t]: messages accepted so far; got: delivered sequence
Thr == 1 .. S
RX == S + 1
Val(t, k) == 10 * t + k
Init == /\ s = MInit([b |-> B, live |-> [i \in 1 .. S |-> i], weak |-> FALSE])
        /\ pc = [t \in 1 .. RX |-> <<>>] /\ sent = [t \in Thr |-> 0] /\ got = <<>> /\ ended = FALSE
TxEv(t) == {[op |-> "trysend", a |-> Val(t, sent[t] + 1), s |-> t, r |-> r, v |-> Val(t, sent[t] + 1)] : r \in IF sent[t] < M THEN {"ok", "full", "disc"} ELSE {}}
           \cup {[op |-> "pollready", a |-> 0, s |-> t, r |-> r, v |-> 0] : r \in {"ready"}}
           \cup {[op |-> "droptx", a |-> 0, s |-> t, r |-> "ok", v |-> 0], [op |-> "closech", a |-> 0, s |-> t, r |-> "ok", v |-> 0]}
RxEv == {[op |-> "recv", a |-> 0, r |-> "item", v |-> s.q[1]] : x \in IF s.q = <<>> THEN {} ELSE {1}}
        \cup {[op |-> "recv", a |-> 0, r |-> "none", v |-> 0], [op |-> "close", a |-> 0, r |-> "ok", v |-> 0], [op |-> "droprx", a |-> 0, r |-> "ok", v |-> 0]}
Begin(t) == /\ pc[t] = <<>>
            /\ \E e \in IF t = RX THEN (IF s.rx THEN RxEv ELSE {}) ELSE (IF t \in s.live THEN TxEv(t) ELSE {}) :
                 \E r \in MApply(s, t, e, 0) :
                   /\ s' = r[1]
                   /\ pc' = [pc EXCEPT ![t] = IF r[2] = 9 THEN <<>> ELSE <<e, r[2]>>]
                   /\ sent' = IF e.op = "trysend" /\ e.r = "ok" THEN [sent EXCEPT ![t] = @ + 1] ELSE sent
                   /\ got' = IF e.op = "recv" /\ e.r = "item" THEN Append(got, e.v) ELSE got
                   /\ ended' = (ended \/ (e.op = "recv" /\ e.r = "none"))
Cont(t) == /\ pc[t] # <<>>
           /\ \E r \in MApply(s, t, pc[t][1], pc[t][2]) :
                s' = r[1] /\ pc' = [pc EXCEPT ![t] = IF r[2] = 9 THEN <<>> ELSE <<@[1], r[2]>>]
           /\ UNCHANGED <<sent, got, ended>>
Next == \E t \in 1 .. RX : Begin(t) \/ Cont(t)
Spec == Init /\ [][Next]_vars
\* --- properties
Delivered(t) == SelectSeq(got, LAMBDA v : v \div 10 = t)
Fifo == \A t \in Thr : \A i \in 1 .. Len(Delivered(t)) : Delivered(t)[i] = Val(t, i)
Count(t) == Len(Delivered(t)) + Cardinality({i \in 1 .. Len(s.q) : s.q[i] \div 10 = t}) + (IF pc[t] # <<>> /\ pc[t][1].op = "trysend" THEN 1 ELSE 0)
NothingLost == s.rx => \A t \in Thr : Count(t) = sent[t]
EndIsFinal == ended => s.q = <<>> /\ s.closed /\ s.infl = {}
Capacity == (B >= 0 /\ s.rx /\ ~s.closed) => Len(s.q) <= B + S
\* A sender that waits is released by the time everything was received: never parked over an idle empty channel.
NoStrandedSender == (s.q = <<>> /\ \A t \in 1 .. RX : pc[t] = <<>>) => s.mp = {}
Inv == MInv(s) /\ Fifo /\ NothingLost /\ EndIsFinal /\ Capacity /\ NoStrandedSender
=============================================================================
