-------------------------------- MODULE Mpsc --------------------------------
(* The multi-producer channels (b = -1: unbounded).                          *)
(*   q      : published, undelivered messages                                 *)
(*   infl   : threads whose send is admitted but not yet published            *)
(*   num    : messages counted against the capacity                           *)
(*   parked : senders over the buffer, in the order in which they are released *)
(*   mp     : senders that must wait (or are refused) now                     *)
(*   live   : live senders                                                    *)
(*   closed : no further message is admitted                                  *)
(*   rclosed: closed by the receiver (which releases every waiting sender)    *)
(*   weak   : the run used weak memory: plain reads may be out of date        *)
(* A send is Admit; [Park]; Publish. A receive is Pop; Release; Uncount.      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
ToSetOf(sq) == {sq[i] : i \in 1 .. Len(sq)}
MInit(cfg) == [q |-> <<>>, infl |-> {}, num |-> 0, parked |-> <<>>, mp |-> {}, live |-> ToSetOf(cfg.live),
               closed |-> FALSE, rclosed |-> FALSE, rx |-> TRUE, b |-> cfg.b, weak |-> cfg.weak]
MIf(c, s) == IF c THEN {<<s, 9>>} ELSE {}
Open(s, x) == ~s.closed /\ x \in s.live
DropTx(s, x) == LET lv == s.live \ {x} IN [s EXCEPT !.live = lv, !.mp = @ \ {x}, !.closed = @ \/ lv = {}]
Admit(s, t, x) == [s EXCEPT !.num = @ + 1, !.infl = @ \cup {t}]
Park(s, x) == [s EXCEPT !.parked = Append(@, x), !.mp = IF s.closed THEN @ ELSE @ \cup {x}]
Publish(s, t, v) == [s EXCEPT !.q = IF s.rx THEN Append(@, v) ELSE @, !.infl = @ \ {t}]
Release(s) == IF s.parked = <<>> THEN s ELSE [s EXCEPT !.parked = Tail(@), !.mp = @ \ {Head(s.parked)}]
MApply(s, t, ev, ph) ==
  CASE ev.op \in {"trysend", "startsend"} ->
         CASE ph = 1 -> {<<Park(s, ev.s), 2>>}
           [] ph = 2 -> {<<Publish(s, t, ev.a), 9>>}
           [] OTHER ->
              (IF ev.r \in {"ok", "open"} /\ Open(s, ev.s) /\ ev.s \notin s.mp
               THEN {<<Admit(s, t, ev.s), IF s.b >= 0 /\ s.num + 1 > s.b THEN 1 ELSE 2>>} ELSE {})
              \cup (IF ev.r \in {"disc", "open"} THEN MIf(~Open(s, ev.s) /\ (ev.op = "startsend" \/ ev.r = "open" \/ ev.v = ev.a), s) ELSE {})
              \cup (IF ev.r \in {"full", "open"} THEN MIf((s.weak \/ ev.s \in s.mp) /\ (ev.op = "startsend" \/ ev.r = "open" \/ ev.v = ev.a), s) ELSE {})
    [] ev.op = "pollready" ->
         CASE ev.r = "ready" -> \* open when first looked at, then not waiting (or released by a concurrent close)
                  IF ph = 0 THEN (IF Open(s, ev.s) THEN {<<s, 1>>} ELSE {}) ELSE MIf(ev.s \notin s.mp, s)
           [] ev.r = "pending" -> MIf(s.weak \/ ev.s \in s.mp, s)
           [] ev.r = "disc" -> MIf(~Open(s, ev.s), s)
           [] OTHER -> {}
    [] ev.op = "flush" ->
         CASE ev.r = "ready" -> MIf(~Open(s, ev.s) \/ ev.s \notin s.mp, s)
           [] ev.r = "pending" -> MIf(s.weak \/ ev.s \in s.mp, s)
           [] OTHER -> {}
    [] ev.op \in {"recv", "tryrecv"} ->
         CASE ev.r = "item" ->
                  CASE ph = 0 -> IF s.q # <<>> /\ s.q[1] = ev.v THEN {<<[s EXCEPT !.q = Tail(@)], 1>>} ELSE {}
                    [] ph = 1 -> {<<Release(s), 2>>}
                    [] OTHER -> {<<[s EXCEPT !.num = @ - 1], 9>>}
           [] ev.r = "none" -> MIf(s.q = <<>> /\ s.closed /\ s.infl = {}, s)
           [] ev.r \in {"pending", "empty"} -> MIf(s.weak \/ (s.q = <<>> /\ (~s.closed \/ s.infl # {})), s)
           [] OTHER -> {}
    [] ev.op = "isterm" -> IF ev.r = "t" THEN MIf(s.q = <<>> /\ s.closed /\ s.infl = {}, s) ELSE {<<s, 9>>}
    [] ev.op = "hint" -> \* v = 100 * lower + upper (99: no upper bound)
         LET m == Len(s.q) + Cardinality(s.infl) IN MIf(ev.v \div 100 <= m /\ (ev.v % 100 = 99 \/ (s.closed /\ ev.v % 100 >= m)), s)
    [] ev.op = "len" -> MIf(IF ev.s \notin s.live THEN ev.v = 0 ELSE IF s.closed THEN ev.v <= s.num ELSE ev.v = s.num, s)
    [] ev.op = "isempty" -> MIf((ev.s \notin s.live \/ s.num = 0 => ev.r = "t") /\ (ev.s \in s.live /\ ~s.closed /\ s.num > 0 => ev.r = "f"), s)
    [] ev.op = "same" -> MIf((ev.r = "t") = ({ev.s, ev.a} \subseteq s.live), s)
    [] ev.op = "isclosed" -> MIf((ev.r = "t") = ~Open(s, ev.s), s)
    [] ev.op = "clone" -> {<<IF ev.s \in s.live THEN [s EXCEPT !.live = @ \cup {ev.a}] ELSE s, 9>>}
    [] ev.op \in {"droptx", "disconnect"} -> IF ev.r \in {"ok", "open"} THEN {<<IF ev.s \in s.live THEN DropTx(s, ev.s) ELSE s, 9>>} ELSE {}
    [] ev.op = "closech" -> IF ev.r \in {"ok", "open"} THEN {<<IF ev.s \in s.live THEN [s EXCEPT !.closed = TRUE] ELSE s, 9>>} ELSE {}
    [] ev.op \in {"close", "droprx"} ->
         IF ph = 0 THEN {<<[s EXCEPT !.closed = TRUE, !.rclosed = TRUE], 1>>}
         ELSE {<<[s EXCEPT !.parked = <<>>, !.mp = {}, !.rx = @ /\ ev.op = "close", !.q = IF ev.op = "close" THEN @ ELSE <<>>], 9>>}
    [] OTHER -> {}
Mine(x, t) == x = t + 1 \/ x \div 10 = t + 1
\* In weak-memory runs a closing receiver may miss a sender that is just parking (the queue is not
\* accessed with sequentially consistent operations).
MObserve(s, ev) ==
  IF /\ ev.e = "blocked" /\ ev.k = "wake"
     /\ \/ ev.op = "recv" /\ s.q = <<>> /\ ~s.closed
        \/ ev.op \in {"pollready", "flush"} /\ (s.weak \/ \E x \in s.mp : Mine(x, ev.t))
  THEN {s} ELSE {}
Held(s) == Len(s.q) + Cardinality(s.infl)
MInv(s) == /\ s.b >= 0 /\ ~s.closed => Held(s) <= s.b + Cardinality(s.live \cup ToSetOf(s.parked)) + Cardinality(s.infl)
           /\ s.b >= 0 => s.num >= Held(s) \/ ~s.rx
           /\ s.live = {} => s.closed
=============================================================================
