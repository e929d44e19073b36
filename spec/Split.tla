------------------------------- MODULE Split -------------------------------
(* Two halves over one object. dup events are what the object itself saw;    *)
(* every call of a half must cause exactly its own operations.               *)
(*   slot: item accepted by the sink half, not handed down yet (0: none)      *)
(*   ops : what the object saw during the current call of each thread         *)
(*   rtok, wtok: reads and writes the (gated) object can still do              *)
EXTENDS Naturals, Integers, Sequences
PInit(cfg) == [slot |-> 0, ops |-> [t \in 0 .. cfg.n - 1 |-> <<>>], reads |-> 0, rtok |-> 0, wtok |-> 0, gated |-> cfg.gated]
Held(s) == IF s.slot = 0 THEN <<>> ELSE <<<<"write", s.slot>>>>
PDone(s, t, want, s2) == IF s.ops[t] = want THEN {<<[s2 EXCEPT !.ops[t] = <<>>], 9>>} ELSE {}
PApply(s, t, ev, ph) ==
  CASE ev.op = "grant" -> {<<s, 9>>}
    [] ev.r = "pending" -> PDone(s, t, <<>>, s) \cup PDone(s, t, <<<<"pend", 0>>>>, s)
    [] ev.op = "read" /\ ev.r = "item" -> IF ev.v = s.reads + 1 THEN PDone(s, t, <<<<"read", ev.v>>>>, [s EXCEPT !.reads = @ + 1]) ELSE {}
    [] ev.op = "write" /\ ev.r = "ok" -> PDone(s, t, <<<<"write", ev.a>>>>, s)
    [] ev.op = "ready" /\ ev.r = "ok" -> PDone(s, t, Held(s), [s EXCEPT !.slot = 0])
    [] ev.op = "ssend" /\ ev.r = "ok" -> IF s.slot = 0 THEN PDone(s, t, <<>>, [s EXCEPT !.slot = ev.a]) ELSE {}
    [] ev.op \in {"flush", "close"} /\ ev.r = "ok" -> PDone(s, t, Held(s) \o <<<<ev.op, 0>>>>, [s EXCEPT !.slot = 0])
    [] ev.op = "pair" -> IF (ev.r = "t") = (ev.a = 1) THEN {<<s, 9>>} ELSE {}
    [] ev.op = "reunite" -> IF IF ev.a = 0 THEN ev.r = "err" ELSE ev.r = "ok" /\ ev.v = s.reads THEN {<<s, 9>>} ELSE {}
    [] OTHER -> {}
PObserve(s, ev) ==
  CASE ev.e = "granted" -> {IF ev.k = 0 THEN [s EXCEPT !.rtok = @ + 1] ELSE [s EXCEPT !.wtok = @ + 1]}
    [] ev.e = "dup" ->
         LET s2 == [s EXCEPT !.ops[ev.t] = Append(@, <<ev.op, ev.v>>)]
         IN CASE ev.op = "ready" -> {s}
              [] s.gated /\ ev.op = "read" -> {[s2 EXCEPT !.rtok = @ - 1]}
              [] s.gated /\ ev.op = "write" -> {[s2 EXCEPT !.wtok = @ - 1]}
              [] OTHER -> {s2}
       \* At the end of a run a half may wait only for the object itself (thread 0 reads, thread 1 writes).
    [] ev.e = "blocked" /\ ev.k = "wake" /\ s.gated -> IF (ev.op = "read" /\ s.rtok = 0) \/ (ev.op # "read" /\ s.wtok = 0) THEN {s} ELSE {}
    [] OTHER -> {}
PInv(s) == TRUE
=============================================================================
