-------------------------------- MODULE Lock --------------------------------
(* A lock (asynchronous mutex with any kind of guard, or two-way lock).      *)
(*   held: the thread that has the guard, -1: free                            *)
(*   val : the protected value; thread t leaves 100 + t when it unlocks       *)
(*   fut : per thread, what its lock future has come to                       *)
(*   par : the lock still has its two halves (two-way lock)                   *)
EXTENDS Naturals, Integers
LInit(cfg) == [held |-> -1, val |-> 1, fut |-> [t \in 0 .. cfg.n - 1 |-> "new"], par |-> TRUE]
LApply(s, t, ev, ph) ==
  CASE ev.op \in {"trylock", "lock"} ->
         CASE ev.r \in {"ok", "ready"} -> IF s.par /\ s.held = -1 /\ ev.v = s.val THEN {<<[s EXCEPT !.held = t, !.fut[t] = IF ev.op = "lock" THEN "done" ELSE @], 9>>} ELSE {}
           [] ev.r \in {"none", "pending"} -> IF s.held # -1 THEN {<<s, 9>>} ELSE {}
           [] OTHER -> {}
    [] ev.op = "unlock" -> IF s.held = t THEN {<<[s EXCEPT !.held = -1, !.val = 100 + t], 9>>} ELSE {}
    [] ev.op = "droplock" -> {<<[s EXCEPT !.fut[t] = "new"], 9>>}
    [] ev.op = "isterm" -> IF (ev.r = "t") = (s.fut[t] = "done") THEN {<<s, 9>>} ELSE {}
       \* a = 1: the two halves of this lock; a = 0: a half of another lock
    [] ev.op = "pair" -> IF (ev.r = "t") = (ev.a = 1) THEN {<<s, 9>>} ELSE {}
    [] ev.op = "reunite" ->
         IF ev.a = 0 THEN (IF ev.r = "err" THEN {<<s, 9>>} ELSE {})
         ELSE IF s.held = -1 /\ ev.r = "ok" /\ ev.v = s.val THEN {<<[s EXCEPT !.par = FALSE], 9>>} ELSE {}
    [] OTHER -> {}
\* A waiter may sleep at the end of a run only if the lock is still held.
LObserve(s, ev) == IF ev.e = "blocked" /\ ev.k = "wake" /\ ev.op = "lock" /\ s.held # -1 THEN {s} ELSE {}
LInv(s) == TRUE
=============================================================================
