------------------------------ MODULE TaskSet ------------------------------
(* A set of tasks polled by an owner (FuturesUnordered, LocalPool, ThreadPool) *)
(* and woken from anywhere.                                                    *)
(*   st[i]  : "no" | "in" | "rdy" (finished, output not handed out) | "out" | "dead" *)
(*   woken  : tasks that must be polled (new, or woken since their last poll)   *)
(*   may    : tasks that may be polled                                          *)
(*   open   : tasks completed from outside      alive: futures not dropped yet  *)
(*   cur    : tasks being polled                fin  : tasks finished so far     *)
(*   main   : futures being blocked on, which may be polled at any time         *)
(*   may2   : tasks woken again while the owner may already have picked them up *)
(*   busy   : the owner is inside a polling call                                *)
(*   mark   : fin at the start of the call in progress                          *)
(*   mid    : threads in the middle of a wake-up (local pools)                  *)
(*   ended  : the set reported its end and nothing was added since               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Ids == 1 .. 12
TInitSt(cfg) == [st |-> [i \in Ids |-> "no"], woken |-> {}, may |-> {}, open |-> {}, alive |-> {}, cur |-> {}, fin |-> 0, mark |-> 0,
                 size |-> IF cfg.k = "pool" THEN cfg.size ELSE 1, k |-> cfg.k, up |-> {}, down |-> {}, main |-> {}, may2 |-> {}, busy |-> cfg.k = "pool", ended |-> FALSE, mid |-> {}]
In(s) == {i \in Ids : s.st[i] = "in"}
Rdy(s) == {i \in Ids : s.st[i] = "rdy"}
RECURSIVE Bits(_)
Bits(S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN 2 ^ i + Bits(S \ {i})
Add(s, i) == [s EXCEPT !.st[i] = "in", !.woken = @ \cup {i}, !.may = @ \cup {i}, !.alive = @ \cup {i}]
OkIf(c, s) == IF c THEN {<<s, 9>>} ELSE {}
Wake(s, i, had) == IF s.st[i] = "in" THEN [s EXCEPT !.may = @ \cup {i}, !.may2 = IF s.busy /\ i \in s.may THEN @ \cup {i} ELSE @, !.woken = IF had THEN @ \cup {i} ELSE @] ELSE s
\* Nothing can progress. A wake that another thread is in the middle of (mid) may hold up those behind it:
\* wake-ups queue, and the owner is told when the first of them is through.
Still(s) == s.woken = {} \/ s.mid # {}
TApply0(s, t, ev, ph) ==
  CASE ev.op \in {"next", "run", "until", "one", "stalled"} /\ ph = 0 -> {<<[s EXCEPT !.busy = TRUE, !.mark = s.fin, !.main = IF ev.op = "until" THEN @ \cup {ev.a} ELSE @], 1>>}
    [] ev.op \in {"wake", "open"} /\ ph = 1 -> {<<[s EXCEPT !.mid = @ \ {t}], 9>>}
    [] ev.op \in {"wake", "open"} /\ s.k = "local" -> {<<[Wake(IF ev.op = "open" THEN [s EXCEPT !.open = @ \cup {ev.a}] ELSE s, ev.a, ev.v = 1) EXCEPT !.mid = @ \cup {t}], 1>>}
    [] ev.op = "wake" -> {<<Wake(s, ev.a, ev.v = 1), 9>>}
    [] ev.op = "open" -> {<<Wake([s EXCEPT !.open = @ \cup {ev.a}], ev.a, ev.v = 1), 9>>}
    \* --- the unordered set
    [] ev.op = "push" -> {<<[Add(s, ev.a) EXCEPT !.ended = FALSE], 9>>}
    [] ev.op = "next" ->
         CASE ev.r = "item" -> OkIf(ev.v \in Rdy(s) /\ ev.v \notin s.alive, [s EXCEPT !.st[ev.v] = "out"])
           [] ev.r = "none" -> OkIf(In(s) = {} /\ Rdy(s) = {}, [s EXCEPT !.ended = TRUE])
           [] ev.r = "pending" -> OkIf(In(s) # {} /\ Rdy(s) = {}, s)
           [] ev.r = "panic" -> OkIf(\E i \in Ids : s.st[i] = "boom", [s EXCEPT !.st = [i \in Ids |-> IF @[i] = "boom" THEN "dead" ELSE @[i]]])
           [] OTHER -> {}
    [] ev.op = "len" -> OkIf(ev.r = "ok" /\ ev.v = Cardinality(In(s)), s)
    [] ev.op = "iter" -> OkIf(ev.r = "ok" /\ ev.v = Bits(In(s)), s)
    [] ev.op = "isterm" -> OkIf((ev.r = "t" => In(s) = {}) /\ (s.ended => ev.r = "t"), s)
    [] ev.op = "clear" -> OkIf(s.alive = {}, [s EXCEPT !.ended = FALSE, !.st = [i \in Ids |-> IF @[i] = "in" THEN "out" ELSE @[i]], !.woken = {}, !.may = {}])
    \* --- executors
    [] ev.op \in {"run", "one", "stalled"} /\ ev.r = "panic" -> OkIf(\E i \in Ids : s.st[i] = "boom", [s EXCEPT !.st = [i \in Ids |-> IF @[i] = "boom" THEN "dead" ELSE @[i]]])
    [] ev.op = "over" -> OkIf(ev.r = "t", s)
    [] ev.op = "run" -> OkIf(In(s) = {} /\ \A i \in Ids : s.st[i] # "boom", s)
    [] ev.op = "until" -> OkIf(ev.r = "item" /\ ev.v = ev.a /\ s.st[ev.a] = "rdy", s)
    [] ev.op = "one" -> IF ev.r = "t" THEN OkIf(s.fin > s.mark, s) ELSE OkIf(Still(s), s)
    [] ev.op = "stalled" -> OkIf(Still(s), s)
    [] ev.op = "nested" -> OkIf(ev.r = "t", s)
    [] ev.op = "handle" -> IF ev.r = "item" THEN OkIf(ev.v = ev.a /\ s.st[ev.a] = "rdy", s) ELSE OkIf(TRUE, s)
    [] OTHER -> {}
TApply(s, t, ev, ph) == LET R == TApply0(s, t, ev, ph)
                        IN IF ev.op \in {"next", "run", "until", "one", "stalled"} /\ ph = 1 THEN {<<[r[1] EXCEPT !.busy = FALSE], r[2]>> : r \in R} ELSE R
TObserve(s, ev) ==
  \* a task spawns while the owner polls it: the call in progress has not made up its mind yet
  CASE ev.e = "spawn" -> IF ("nested" \in DOMAIN ev /\ ev.nested) => s.busy THEN {Add(s, ev.i)} ELSE {}
    [] ev.e = "ipoll" -> IF s.busy /\ s.st[ev.i] = "in" /\ ev.i \in s.may \cup s.main /\ ev.i \notin s.cur
                         THEN {[s EXCEPT !.may = IF ev.i \in s.may2 THEN @ ELSE @ \ {ev.i}, !.may2 = @ \ {ev.i}, !.woken = @ \ {ev.i}, !.cur = @ \cup {ev.i}]} ELSE {}
    [] ev.e \in {"iret", "ipanic"} /\ ~s.busy -> {}
    [] ev.e = "iret" -> {[s EXCEPT !.cur = @ \ {ev.i}, !.st[ev.i] = IF ev.r = "ready" THEN "rdy" ELSE @, !.fin = IF ev.r = "ready" THEN @ + 1 ELSE @,
                                  !.woken = IF ev.r = "ready" THEN @ \ {ev.i} ELSE @]}
    [] ev.e = "ipanic" -> {[s EXCEPT !.cur = @ \ {ev.i}, !.st[ev.i] = "boom", !.woken = @ \ {ev.i}]}
    [] ev.e = "futdrop" -> IF ev.i \in s.alive /\ ev.i \notin s.cur THEN {[s EXCEPT !.alive = @ \ {ev.i}]} ELSE {}
    [] ev.e = "wstart" -> IF ev.i < s.size /\ ev.i \notin s.up THEN {[s EXCEPT !.up = @ \cup {ev.i}]} ELSE {}
    [] ev.e = "wstop" -> IF ev.i \in s.up /\ ev.i \notin s.down THEN {[s EXCEPT !.down = @ \cup {ev.i}]} ELSE {}
    \* A sleeping owner: only if no member was completed or woken without being polled since.
    [] ev.e = "blocked" -> IF <<ev.k, ev.op>> \in {<<"wake", "next">>, <<"park", "run">>, <<"park", "until">>} /\ In(s) # {} /\ In(s) \cap s.open = {} /\ s.woken = {} THEN {s} ELSE {}
    [] ev.e = "end" -> IF s.k = "pool" THEN (IF In(s) = {} /\ s.alive = {} /\ s.up = 0 .. s.size - 1 /\ s.down = s.up THEN {s} ELSE {}) ELSE {s}
    [] OTHER -> {}
TInv(s) == Rdy(s) \subseteq s.open /\ s.woken \subseteq s.may
=============================================================================
