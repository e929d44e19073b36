------------------------------- MODULE Abort -------------------------------
(* An abortable future or stream over one inner computation.                  *)
(*   chk[t] : the poll in progress on t has passed its abort check              *)
(*   copy   : copy_buf_abortable, which looks at the flag again between the inner steps of one poll *)
(*   got[t] : result of the inner poll inside it                                *)
EXTENDS Naturals, Integers
BInit(cfg) == [ab |-> FALSE, open |-> FALSE, chk |-> FALSE, got |-> "", weak |-> cfg.weak, stream |-> cfg.stream, copy |-> cfg.copy]
Fin(s) == {<<[s EXCEPT !.chk = FALSE, !.got = ""], 9>>}
BApply(s, t, ev, ph) ==
  CASE ev.op = "abort" -> {<<[s EXCEPT !.ab = TRUE], 9>>}
    [] ev.op = "isab" -> IF (ev.r = "t" /\ s.ab) \/ (ev.r = "f" /\ (s.weak \/ ~s.ab)) THEN {<<s, 9>>} ELSE {}
    [] ev.op = "apoll" ->
         IF ph = 0 THEN (IF s.ab /\ ev.r \in (IF s.stream THEN {"none"} ELSE {"aborted"}) THEN Fin(s) ELSE {})
                        \cup (IF s.weak \/ ~s.ab THEN {<<[s EXCEPT !.chk = TRUE], 1>>} ELSE {})
         ELSE CASE ev.r = "item" -> IF s.got = "ready" /\ ev.v = 1 THEN Fin(s) ELSE {}
                [] ev.r = "aborted" -> IF s.ab /\ ~s.stream /\ (s.got # "ready" \/ s.copy) THEN Fin(s) ELSE {}
                [] ev.r = "none" -> IF s.stream /\ ((s.ab /\ s.got # "ready") \/ s.got = "ready") THEN Fin(s) ELSE {}
                [] ev.r = "pending" -> IF (s.weak \/ ~s.ab) /\ s.got = "pending" THEN Fin(s) ELSE {}
                [] OTHER -> {}
    [] ev.op = "open" -> {<<[s EXCEPT !.open = TRUE], 9>>}
    [] ev.op = "wake" -> {<<s, 9>>}
    [] OTHER -> {}
BObserve(s, ev) ==
  CASE ev.e = "ipoll" -> IF s.chk /\ s.got = "" THEN {[s EXCEPT !.got = "polling"]} ELSE {}
    [] ev.e = "iret" -> {[s EXCEPT !.got = ev.r]}
    [] ev.e = "blocked" -> IF ev.k = "wake" /\ ev.op = "apoll" /\ ~s.ab /\ ~s.open THEN {s} ELSE {}
    [] OTHER -> {}
BInv(s) == TRUE
=============================================================================
