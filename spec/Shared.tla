------------------------------- MODULE Shared -------------------------------
(* A future driven by whichever clone polls it.                              *)
(*   inner: "idle" | "polling" | "ready" (finished, not published) | "done" |  *)
(*          "panicked" | "poison"                     by: who polls it         *)
(*   open : has the inner future been completed from outside                   *)
(*   live : clones that still hold the inner future    got: threads whose clone yielded *)
EXTENDS Naturals, Integers
HInit(cfg) == [inner |-> "idle", by |-> -1, open |-> FALSE, live |-> cfg.p, got |-> {}]
HApply(s, t, ev, ph) ==
  CASE ev.op = "spoll" ->
         CASE ev.r = "item" ->
                (IF s.inner = "ready" /\ s.by = t /\ ev.v = 1 THEN {<<[s EXCEPT !.inner = "done", !.by = -1], 5>>} ELSE {})
                \cup (IF s.inner = "done" /\ ev.v = 1 THEN {<<[s EXCEPT !.live = @ - 1, !.got = @ \cup {t}], 9>>} ELSE {})
           [] ev.r = "pending" -> IF s.inner \notin {"done", "poison"} /\ (s.inner \in {"ready", "panicked"} => s.by # t) THEN {<<s, 9>>} ELSE {}
           [] ev.r = "panic" -> \* a clone that saw the panic may or may not let go of the inner future
                IF (s.inner = "panicked" /\ s.by = t) \/ s.inner = "poison"
                THEN {<<[s EXCEPT !.inner = "poison", !.live = @ - d, !.got = IF d = 1 THEN @ \cup {t} ELSE @], 9>> : d \in {0, 1}} ELSE {}
           [] OTHER -> {}
    [] ev.op = "peek" -> IF (ev.r = "item" /\ s.inner = "done" /\ ev.v = 1) \/ (ev.r = "none" /\ s.inner \notin {"done", "poison"}) \/ (ev.r = "panic" /\ s.inner = "poison") THEN {<<s, 9>>} ELSE {}
    [] ev.op = "open" -> {<<[s EXCEPT !.open = TRUE], 9>>}
    [] ev.op = "wake" -> {<<s, 9>>}
    [] ev.op = "isterm" -> IF (ev.r = "t") = (t \in s.got) THEN {<<s, 9>>} ELSE {}
    [] ev.op = "sclone" -> {<<[s EXCEPT !.live = @ + 1], 9>>}
    [] ev.op = "sdrop" -> {<<[s EXCEPT !.live = @ - 1], 9>>}
    [] ev.op = "tdrop" -> IF t \in s.got THEN {<<s, 9>>} ELSE {}
    [] ev.op = "upgrade" -> IF (ev.r = "t") = (s.live > 0) THEN {<<[s EXCEPT !.live = IF ev.r = "t" THEN @ + 1 ELSE @], 9>>} ELSE {}
    [] ev.op = "count" -> IF (ev.r = "ok" /\ ev.v = s.live) \/ (ev.r = "none" /\ t \in s.got) THEN {<<s, 9>>} ELSE {}
    [] OTHER -> {}
HObserve(s, ev) ==
  CASE ev.e = "ipoll" -> IF s.inner = "idle" THEN {[s EXCEPT !.inner = "polling", !.by = ev.t]} ELSE {}
    [] ev.e = "iret" -> {[s EXCEPT !.inner = IF ev.r = "ready" THEN "ready" ELSE "idle"]}
    [] ev.e = "ipanic" -> {[s EXCEPT !.inner = "panicked"]}
    \* Nobody may sleep once the inner future can complete (after a panic there is nothing to wait for).
    [] ev.e = "blocked" -> IF ev.k = "wake" /\ (~s.open \/ s.inner = "poison") THEN {s} ELSE {}
    [] OTHER -> {}
HInv(s) == s.inner \in {"ready", "done"} => s.open
=============================================================================
