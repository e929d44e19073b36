------------------------------ MODULE SeqStep ------------------------------
(* One event of a combinator's log as a step of its machine: the part that  *)
(* trace validation (SeqRun) and the design models (SeqMC) share.           *)
EXTENDS SeqCore
CONSTANTS SInit(_),             \* cfg |-> initial state
          CanPoll(_, _, _),     \* (cfg, st, k): may input k be polled now
          Answer(_, _, _),      \* (cfg, st, ev): states after input ev.k answered item / err / ready / end
          Called(_, _, _),      \* (cfg, st, ev): states after a closure call (not a panic)
          PendOK(_, _),         \* (cfg, st): may the combinator be pending without having arranged to be polled again
          Extra(_, _, _),       \* (cfg, st, ev): other events
          Sticky(_, _),         \* (cfg, st): inputs that hold a waker of their own across polls
          Ret(_, _, _)          \* (cfg, st, ev): states after a return that is not pending
\* w counts how often an input was passed over (fairness of merging combinators).
Heard(s, k) == [s EXCEPT !.ans = @ \cup {k}, !.w = IF k \in DOMAIN @ THEN [@ EXCEPT ![k] = 0] ELSE @]
Input(c, s, ev) ==
  IF ev.k \in s.over \/ ev.r = "after" \/ ~CanPoll(c, s, ev.k) THEN {}
  ELSE IF ev.r = "pend" THEN {Heard([s EXCEPT !.pend = @ \cup {ev.k}], ev.k)}
  ELSE LET s1 == Heard([s EXCEPT !.pend = @ \ {ev.k}, !.last = ev.k], ev.k)
           s2 == IF ev.e = "fut" \/ ev.r \in {"end", "panic"} THEN [s1 EXCEPT !.over = @ \cup {ev.k}] ELSE s1
       IN IF ev.r = "panic" THEN {[s2 EXCEPT !.stg = "panic"]} ELSE Answer(c, s2, ev)
Step(c, s, ev) ==
  CASE ev.e \in {"src", "fut"} -> Input(c, s, ev)
    [] ev.e = "call" -> IF ev.r = "panic" THEN If(s.stg # "panic", {[s EXCEPT !.stg = "panic"]}) ELSE Called(c, s, ev)
    [] ev.e = "poll" -> {[s EXCEPT !.pend = @ \cap Sticky(c, s), !.ans = {}, !.last = -1, !.op = ev.op, !.stg = IF @ = "strat" THEN "idle" ELSE @]}
    [] ev.e = "ret" /\ ev.r = "pend" /\ c.k \in {"ilp", "ilps", "ponce"} /\ ~s.b -> If(ev.sw /\ s.ans = {}, {[s EXCEPT !.b = TRUE]})
    [] ev.e = "ret" /\ ev.r = "pend" -> If(s.stg \notin {"call", "panic"} /\ (ev.sw \/ (PendOK(c, s) /\ s.pend # {})), {s})
    [] ev.e = "ret" -> IF s.stg = "panic" /\ c.k \notin {"catch_unwind"} THEN If(ev.r = "panic", {s}) ELSE If(ev.r # "panic", Ret(c, s, ev))
    [] ev.e = "wake" -> If(ev.k \in s.pend => ev.ok, {[s EXCEPT !.pend = @ \ {ev.k}]})
    [] ev.e = "hint" -> If(HintOK(ev), {s})
    [] ev.e = "term" -> If(TermOK(c, ev) /\ (c.k = "maybe_done" /\ s.stg # "panic" => ev.v = s.b) /\ (c.k = "poll_imm" /\ ev.aft => ev.v = (0 \notin s.pend)), {s})
    [] OTHER -> Extra(c, s, ev)
\* The usual return rule: outputs in the order owed, the end only when nothing is owed.
RetQ(c, s, ev) == CASE ev.r = "none" -> If(s.q = <<>> /\ s.fin /\ s.stg = "idle", {s})
                    [] OTHER -> If(s.q # <<>> /\ s.stg = "idle" /\ Head(s.q) = Out(ev.r, ev.v), {[s EXCEPT !.q = Tail(@)]})
NoExtra(c, s, ev) == {}
=============================================================================
