-------------------------------- MODULE Flat --------------------------------
(* Concurrency-limited combinators over a source and inner inputs that are    *)
(* completed by other threads.                                                *)
(*   k    : "flat" (inner streams of one item), "bufun", "buffered" (inner     *)
(*          futures), "fec" (inner futures without outputs)                    *)
(*   open : inputs completed from outside (1.. inner, 11.. steps of the source) *)
(*   pos  : inner inputs the source has handed out      send: it has ended     *)
(*   live : handed out and not finished                                        *)
(*   rdy  : outputs produced and not yielded            out : outputs yielded  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
FInit(cfg) == [k |-> cfg.k, lim |-> cfg.limit, m |-> cfg.m, open |-> {}, pos |-> 0, send |-> FALSE, live |-> {}, rdy |-> {}, out |-> 0, cur |-> {}]
Flying(s) == IF s.k = "buffered" THEN s.live \cup s.rdy ELSE s.live
Can(s) == IF s.k = "buffered" THEN s.rdy \cap {s.out + 1} ELSE s.rdy
FApply(s, t, ev, ph) ==
  CASE ev.op = "wake" -> {<<s, 9>>}
    [] ev.op = "open" -> {<<[s EXCEPT !.open = @ \cup {ev.a}], 9>>}
    [] ev.op = "drop" -> {<<s, 9>>}
    [] ev.op = "next" ->
         CASE ev.r = "item" -> IF ev.v \in Can(s) /\ s.k # "fec" THEN {<<[s EXCEPT !.rdy = @ \ {ev.v}, !.out = @ + 1], 9>>} ELSE {}
           [] ev.r = "none" -> IF s.send /\ s.live = {} /\ (s.rdy = {} \/ s.k = "fec") THEN {<<s, 9>>} ELSE {}
           [] ev.r = "pending" -> IF Can(s) = {} \/ s.k = "fec" THEN {<<s, 9>>} ELSE {}
           [] OTHER -> {}
    [] OTHER -> {}
FObserve(s, ev) ==
  CASE ev.e = "ipoll" -> IF ev.i \in s.live \/ (ev.i = 11 + s.pos /\ ~s.send /\ Cardinality(Flying(s)) < s.lim) THEN {s} ELSE {}
    [] ev.e = "iret" -> IF ev.r = "pending" THEN {s}
                        ELSE IF ev.i > 10 THEN {[s EXCEPT !.pos = @ + 1, !.live = @ \cup {ev.i - 10}]}
                        ELSE {[s EXCEPT !.rdy = IF s.k = "fec" THEN @ ELSE @ \cup {ev.i}, !.live = IF s.k = "flat" THEN @ ELSE @ \ {ev.i}]}
    [] ev.e = "inend" -> {[s EXCEPT !.live = @ \ {ev.i}]}
    [] ev.e = "srcend" -> IF s.pos = s.m /\ Cardinality(Flying(s)) < s.lim THEN {[s EXCEPT !.send = TRUE]} ELSE {}
    \* Asleep at the end of a run: nothing that was completed from outside is left unused.
    [] ev.e = "blocked" ->
         IF /\ ev.k = "wake" /\ ev.op = "next" /\ Can(s) = {}
            /\ s.live \cap s.open = {}
            /\ s.send => s.live # {}
            /\ ~s.send => (Cardinality(Flying(s)) >= s.lim \/ (s.pos < s.m /\ 11 + s.pos \notin s.open))
         THEN {s} ELSE {}
    [] OTHER -> {}
FInv(s) == Cardinality(Flying(s)) <= s.lim
=============================================================================
