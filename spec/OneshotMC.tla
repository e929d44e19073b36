----------------------------- MODULE OneshotMC -----------------------------
(* Exhaustive check of the one-shot channel's design, with a full history:   *)
(* a value is received, handed back or dropped, and only one of these.       *)
EXTENDS Oneshot, FiniteSets
VARIABLES s, fate, rxsaw   \* fate: what became of the value; rxsaw: results the receiver saw
vars == <<s, fate, rxsaw>>
Ev(op, r, v) == [op |-> op, a |-> 1, r |-> r, v |-> v]
Tx == {Ev("send", "ok", 0), Ev("send", "err", 1), Ev("droptx", "ok", 0), Ev("iscanceled", "t", 0), Ev("iscanceled", "f", 0), Ev("pollcanceled", "ready", 0), Ev("pollcanceled", "pending", 0)}
Rx == {Ev("recv", "item", 1), Ev("recv", "canceled", 0), Ev("recv", "pending", 0), Ev("tryrecv", "empty", 0), Ev("close", "ok", 0), Ev("droprx", "ok", 0)}
Init == s = OInit(<<>>) /\ fate = "none" /\ rxsaw = {}
Step(e) == \E r \in OApply(s, 0, e, 0) :
   /\ s' = r[1]
   /\ fate' = CASE e.op = "send" /\ e.r = "ok" -> "sent" [] e.op = "send" -> "returned"
                [] e.op = "recv" /\ e.r = "item" -> IF fate = "sent" THEN "received" ELSE "BAD"
                [] e.op = "droprx" /\ fate = "sent" -> "dropped" [] OTHER -> fate
   /\ rxsaw' = IF e.op \in {"recv", "tryrecv"} THEN rxsaw \cup {e.r} ELSE rxsaw
Next == (s.tx /\ \E e \in Tx : Step(e)) \/ (s.rx /\ \E e \in Rx : Step(e))
Spec == Init /\ [][Next]_vars /\ WF_vars(\E e \in {Ev("recv", "item", 1), Ev("recv", "canceled", 0)} : s.rx /\ Step(e))
ExactlyOnce == fate # "BAD" /\ ("item" \in rxsaw => fate = "received")
CancelOK == "canceled" \in rxsaw => (~s.tx \/ s.closed)
Inv == OInv(s) /\ ExactlyOnce /\ CancelOK
\* The two ends can never both be waiting for good: with the sender gone, a listening receiver has an answer.
NoLimbo == (~s.tx /\ s.rx) => \E e \in {Ev("recv", "item", 1), Ev("recv", "canceled", 0)} : OApply(s, 0, e, 0) # {}
=============================================================================
