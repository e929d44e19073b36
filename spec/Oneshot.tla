------------------------------ MODULE Oneshot ------------------------------
(* The one-shot channel.                                                     *)
(*   slot  : "empty" | "full" | "taken"   what became of the value           *)
(*   tx    : is the sender alive                                             *)
(*   closed: has the receiver closed or gone away                            *)
(*   rx    : is the receiver alive                                           *)
(*   mid   : a send was under way when the channel was not yet closed        *)
(*   told  : the receiver was told that the channel is at its end            *)
(*   kf    : known finding "oneshot-close-race": a send that was under way   *)
(*           when the receiver closed puts its value in place after the      *)
(*           receiver was told the end (see DESIGN.md)                       *)
EXTENDS Naturals, Sequences
OInit(cfg) == [slot |-> "empty", v |-> 0, tx |-> TRUE, rx |-> TRUE, closed |-> FALSE, mid |-> FALSE, told |-> FALSE, kf |-> ""]
Done(s) == {<<s, 9>>}
If(c, s) == IF c THEN {<<s, 9>>} ELSE {}
Told(s) == [s EXCEPT !.told = s.mid /\ s.tx]
\* All <<state', phase'>> by which call `ev` (with its result ev.r, ev.v) may take effect.
OApply(s, t, ev, ph) ==
  CASE ev.op = "send" /\ ph = 1 -> If(s.tx /\ s.closed /\ s.told, [s EXCEPT !.slot = "full", !.v = ev.a, !.tx = FALSE, !.kf = "oneshot-close-race"])
    [] ev.op = "send" ->
         (IF ev.r \in {"ok", "open"} THEN If(s.tx /\ ~s.closed, [s EXCEPT !.slot = "full", !.v = ev.a, !.tx = FALSE]) ELSE {})
         \cup (IF ev.r \in {"err", "open"} THEN If(s.tx /\ s.closed /\ (ev.r = "open" \/ ev.v = ev.a), [s EXCEPT !.tx = FALSE]) ELSE {})
         \cup (IF ev.r \in {"ok", "open"} /\ s.tx /\ ~s.closed THEN {<<[s EXCEPT !.mid = TRUE], 1>>} ELSE {})
    [] ev.op = "droptx" -> If(s.tx, [s EXCEPT !.tx = FALSE])
    [] ev.op = "iscanceled" -> If((ev.r = "t") = s.closed, s)
    [] ev.op = "pollcanceled" -> If((ev.r = "ready") = s.closed, s)
    [] ev.op \in {"recv", "tryrecv"} ->
         CASE ev.r = "item" -> If(s.slot = "full" /\ s.v = ev.v, [s EXCEPT !.slot = "taken"])
           [] ev.r = "canceled" -> If(s.slot # "full" /\ (~s.tx \/ s.closed), Told(s))
           [] ev.r \in {"pending", "empty"} -> If(s.slot # "full" /\ s.tx /\ ~s.closed, s)
           [] OTHER -> {}
    [] ev.op = "isterm" -> IF ev.r = "t" THEN If(s.slot # "full" /\ (~s.tx \/ s.closed), Told(s)) ELSE If(s.slot = "full" \/ s.tx, s)
    [] ev.op = "close" -> Done([s EXCEPT !.closed = TRUE])
    [] ev.op = "droprx" -> If(s.rx, [s EXCEPT !.rx = FALSE, !.closed = TRUE, !.slot = IF s.slot = "full" THEN "taken" ELSE s.slot])
    [] OTHER -> {}
\* A task asleep at the end of a run, all woken tasks having run: only if it cannot progress.
OObserve(s, ev) ==
  IF /\ ev.e = "blocked" /\ ev.k = "wake"
     /\ \/ ev.op = "recv" /\ s.slot # "full" /\ s.tx /\ ~s.closed
        \/ ev.op = "pollcanceled" /\ ~s.closed
  THEN {s} ELSE {}
OInv(s) == /\ s.slot = "full" => ~s.tx
           /\ ~s.rx => s.closed
=============================================================================
