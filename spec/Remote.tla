------------------------------- MODULE Remote -------------------------------
(* A computation and the handle that receives its result.                     *)
(*   h    : "alive" | "forgot" | "dropped"      rem : "run" | "done" | "gone"   *)
(*   sent : "none" | "val" | "panic"            got : the current inner poll     *)
EXTENDS Naturals, Integers
RInit(cfg) == [h |-> "alive", rem |-> "run", sent |-> "none", open |-> FALSE, chk |-> FALSE, got |-> ""]
RFin(s) == {<<[s EXCEPT !.chk = FALSE, !.got = ""], 9>>}
RApply(s, t, ev, ph) ==
  CASE ev.op = "rpoll" ->
         IF ph = 0 THEN (IF s.h = "dropped" /\ ev.r = "done" THEN RFin([s EXCEPT !.rem = "done"]) ELSE {})
                        \cup (IF s.h # "dropped" THEN {<<[s EXCEPT !.chk = TRUE], 1>>} ELSE {})
         ELSE CASE ev.r = "done" -> IF s.got \in {"ready", "panic"} THEN RFin([s EXCEPT !.rem = "done", !.sent = IF s.got = "ready" THEN "val" ELSE "panic"]) ELSE {}
                [] ev.r = "pending" -> IF s.got = "pending" THEN RFin(s) ELSE {}
                [] OTHER -> {}
    [] ev.op = "rdrop" -> {<<[s EXCEPT !.rem = "gone"], 9>>}
    [] ev.op = "hpoll" ->
         CASE ev.r = "item" -> IF s.sent = "val" /\ ev.v = 1 THEN {<<[s EXCEPT !.h = "done"], 9>>} ELSE {}
           [] ev.r = "panic" -> IF s.sent = "panic" THEN {<<[s EXCEPT !.h = "done"], 9>>} ELSE {}
           [] ev.r = "canceled" -> IF s.sent = "none" /\ s.rem = "gone" THEN {<<[s EXCEPT !.h = "done"], 9>>} ELSE {}
           [] ev.r = "pending" -> IF s.sent = "none" /\ s.rem # "gone" THEN {<<s, 9>>} ELSE {}
           [] OTHER -> {}
    [] ev.op = "hdrop" -> {<<[s EXCEPT !.h = "dropped"], 9>>}
    [] ev.op = "hforget" -> {<<[s EXCEPT !.h = "forgot"], 9>>}
    [] ev.op = "open" -> {<<[s EXCEPT !.open = TRUE], 9>>}
    [] ev.op = "wake" -> {<<s, 9>>}
    [] OTHER -> {}
RObserve(s, ev) ==
  CASE ev.e = "ipoll" -> IF s.chk /\ s.got = "" THEN {[s EXCEPT !.got = "polling"]} ELSE {}
    [] ev.e = "iret" -> {[s EXCEPT !.got = ev.r]}
    [] ev.e = "ipanic" -> {[s EXCEPT !.got = "panic"]}
    [] ev.e = "blocked" -> IF /\ ev.k = "wake"
                              /\ \/ ev.op = "rpoll" /\ ~s.open /\ s.h # "dropped"
                                 \/ ev.op = "hpoll" /\ s.sent = "none" /\ s.rem = "run"
                           THEN {s} ELSE {}
    [] OTHER -> {}
RInv(s) == s.sent # "none" => s.open /\ s.rem # "run"
=============================================================================
