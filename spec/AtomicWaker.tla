---------------------------- MODULE AtomicWaker ----------------------------
(* One registering task, any number of wakers.                               *)
(*   slot : registered waker (0: none)      due : wake-ups owed, per waker    *)
(*   reg  : waker of the registration in progress (0: none)                   *)
(*   act  : threads with a wake/take in progress; own: what each took         *)
(*   taken: wakers handed to the caller of take, which wakes them itself      *)
(*   flag : user data published before waking                                 *)
(* A wake that meets a registration in progress hands its duty to it.         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
AInit(cfg) == [slot |-> 0, taken |-> <<>>, due |-> [i \in 1 .. 30 |-> 0], reg |-> 0, act |-> {}, own |-> [t \in 0 .. cfg.n - 1 |-> 0], flag |-> FALSE, weak |-> cfg.weak]
TakeSlot(s) == [s EXCEPT !.slot = 0, !.due = IF s.slot = 0 THEN @ ELSE [@ EXCEPT ![s.slot] = @ + 1]]
AApply(s, t, ev, ph) ==
  CASE ev.op = "register" ->
         IF ph = 0 THEN {<<[s EXCEPT !.slot = ev.a, !.reg = ev.a], 1>>}
                        \cup (IF s.act # {} THEN {<<[s EXCEPT !.reg = ev.a, !.due[ev.a] = @ + 1], 1>>} ELSE {})
         ELSE IF s.due[ev.a] = 0 \/ \E u \in s.act : s.own[u] = ev.a THEN {<<[s EXCEPT !.reg = 0], 9>>} ELSE {}
    [] ev.op = "wake" ->
         CASE ph = 0 -> {<<[s EXCEPT !.act = @ \cup {t}], 1>>}
           [] ph = 1 -> {<<[TakeSlot(s) EXCEPT !.own[t] = s.slot], 2>>}
           [] OTHER -> IF s.own[t] = 0 \/ s.due[s.own[t]] = 0 \/ s.own[t] = s.reg THEN {<<[s EXCEPT !.own[t] = 0, !.act = @ \ {t}], 9>>} ELSE {}
    [] ev.op = "take" ->
         CASE ph = 0 -> {<<[s EXCEPT !.act = @ \cup {t}], 1>>}
           [] ph = 1 -> IF ev.r = "item" THEN (IF s.slot # 0 THEN {<<[s EXCEPT !.slot = 0, !.taken = Append(@, s.slot)], 2>>} ELSE {})
                        ELSE IF s.slot = 0 \/ s.slot = s.reg THEN {<<TakeSlot(s), 2>>} ELSE {}
           [] OTHER -> {<<[s EXCEPT !.act = @ \ {t}], 9>>}
    [] ev.op = "set" -> {<<[s EXCEPT !.flag = TRUE], 9>>}
    [] ev.op = "check" -> IF (ev.r = "t" /\ s.flag) \/ (ev.r = "f" /\ (s.weak \/ ~s.flag)) THEN {<<s, 9>>} ELSE {}
    [] OTHER -> {}
AObserve(s, ev) ==
  CASE ev.e = "woke" -> (IF s.due[ev.w] > 0 THEN {[s EXCEPT !.due[ev.w] = @ - 1]} ELSE {})
                        \cup {[s EXCEPT !.taken = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))] : i \in {j \in 1 .. Len(s.taken) : s.taken[j] = ev.w}}
    [] ev.e = "blocked" -> IF ev.k = "wake" /\ ev.op = "n" /\ ~s.flag THEN {s} ELSE {}
    [] OTHER -> {}
AInv(s) == s.act = {} => \A t \in DOMAIN s.own : s.own[t] = 0
=============================================================================
