------------------------------- MODULE Merge -------------------------------
(* Stream combinators with several inputs, inputs made on the way           *)
(* (sub-streams, futures), limits, or several operations.                   *)
EXTENDS SeqCore
Sets == {"funo", "fmuno", "tfuno", "bufun", "tbufun", "buffered", "tbuffered", "fec", "tfec", "ordered", "unordered", "sall"}
Flat == {"flatten", "flat_map", "tflatten", "fstream", "tfstream"}
Rr == {"select", "select_all", "strategy", "select_any"}
\* t: order of submission (buffered); s: finished futures not yet yielded, as <<k, r, v>>; set: unfinished members
MInit(c) == [Core0 EXCEPT !.t = IF c.k \in {"unfold", "tunfold"} THEN <<c.init>> ELSE <<>>,
                          !.stg = IF c.k \in {"unfold", "tunfold"} THEN "call" ELSE "idle",
                          !.fid = IF c.k = "cycle" THEN 0 ELSE -1,
                          !.fin = (c.k = "select_all" /\ c.n = 0),
                          !.w = IF c.k \in Rr THEN [i \in 0 .. (c.n - 1) |-> 0] ELSE IF c.k \in {"funo", "fmuno", "tfuno", "sall"} THEN [i \in 0 .. 40 |-> 0] ELSE <<>>]
Live(c, st) == (0 .. (c.n - 1)) \ st.over
MCanPoll(c, st, k) ==
  CASE c.k = "zip" -> st.q = <<>> /\ (IF k = 0 THEN st.s = <<>> ELSE k = 1 /\ st.t = <<>>)
    [] c.k = "chain" -> st.q = <<>> /\ (IF 0 \in st.over THEN k = 1 ELSE k = 0)
    [] c.k = "take_until" -> IF k = 1 THEN st.q = <<>> /\ ~st.b ELSE k = 0 /\ Quiet(st) /\ (st.b \/ 1 \in st.ans)
    [] c.k \in {"ready_chunks", "tready_chunks"} -> k = 0 /\ Quiet(st) /\ Len(st.s) < c.n /\ 0 \notin st.pend
    [] c.k = "peek" -> k = 0 /\ st.s = <<>> /\ ~st.fin /\ st.stg = "idle"
    [] c.k = "cycle" -> k = st.fid /\ Quiet(st)
    [] c.k \in {"poll_imm", "catch_unwind"} -> k = 0 /\ Quiet(st) /\ st.stg = "idle"
    [] c.k \in {"unfold", "tunfold"} -> st.stg = "fut" /\ k = st.fid
    [] c.k \in Flat -> Quiet(st) /\ st.stg = "idle" /\ k = (IF st.fid # -1 THEN st.fid ELSE 0)
    [] c.k \in {"select", "select_all", "select_any"} -> Quiet(st) /\ k \in Live(c, st)
    [] c.k = "strategy" -> Quiet(st) /\ k \in Live(c, st) /\ (st.ans # {} \/ st.over # {} \/ (st.stg = "strat" /\ k = st.cur))
    [] c.k \in {"buffered", "tbuffered"} -> st.q = <<>> /\ (IF k = 0 THEN Len(st.t) < c.n ELSE k \in st.set)
    [] c.k \in Sets -> st.q = <<>> /\ st.stg = "idle" /\ ~st.fin /\ (IF k = 0 /\ c.k \notin {"ordered", "unordered", "sall"} THEN Cardinality(st.set) < c.n ELSE k \in st.set)
Add(st, k) == [st EXCEPT !.set = @ \cup {k}, !.t = Append(@, k), !.stg = "idle"]
Finish(st, k, r, v) == [st EXCEPT !.set = @ \ {k}, !.s = Append(@, <<k, r, v>>)]
\* all work done?
Settled(c, st) == IF st.set = {} /\ 0 \in st.over THEN (IF c.k \in {"fec", "tfec"} THEN Done(st, "val", <<>>) ELSE [st EXCEPT !.fin = TRUE]) ELSE st
MAns(c, st, ev) ==
  LET k == ev.k r == ev.r v == ev.v IN
  CASE c.k = "zip" -> IF r = "end" THEN Fin(st)
                      ELSE IF k = 0 THEN (IF st.t = <<>> THEN [st EXCEPT !.s = <<v>>] ELSE [Emit(st, <<v, st.t[1]>>) EXCEPT !.t = <<>>])
                      ELSE (IF st.s = <<>> THEN [st EXCEPT !.t = <<v>>] ELSE [Emit(st, <<st.s[1], v>>) EXCEPT !.s = <<>>])
    [] c.k = "chain" -> IF r = "end" THEN (IF k = 1 THEN Fin(st) ELSE st) ELSE Emit(st, <<v>>)
    [] c.k = "take_until" -> IF k = 1 THEN [Fin(st) EXCEPT !.s = <<v>>] ELSE IF r = "end" THEN Fin(st) ELSE Emit(st, <<v>>)
    [] c.k = "sall" -> IF r = "end" THEN [st EXCEPT !.set = @ \ {k}] ELSE Emit(st, <<v>>)
    [] c.k \in {"ready_chunks", "tready_chunks"} ->
         CASE r = "end" -> [st EXCEPT !.fin = TRUE] [] r = "err" -> [EmitErr(st, Append(st.s, v)) EXCEPT !.s = <<>>] [] OTHER -> [st EXCEPT !.s = Append(@, v)]
    [] c.k = "peek" -> IF r = "end" THEN Fin(st) ELSE [st EXCEPT !.s = <<v>>]
    [] c.k = "cycle" -> IF r = "end" THEN (IF (st.over \cap st.ans) \ {k} # {} THEN Fin(st) ELSE [st EXCEPT !.fid = -1]) ELSE Emit(st, <<v>>)
    [] c.k \in {"poll_imm", "catch_unwind"} -> IF r = "end" THEN Fin(st) ELSE Emit(st, <<v>>)
    [] c.k \in {"unfold", "tunfold"} -> CASE r = "err" -> [EmitErr(st, <<v>>) EXCEPT !.fin = TRUE]
                                          [] v = 0 -> Fin(st)
                                          [] OTHER -> [Emit(st, <<v>>) EXCEPT !.t = <<v + 1>>, !.stg = "call"]
    [] c.k \in Flat ->
         IF k = 0 THEN (CASE r = "end" -> Fin(st)
                          [] r = "err" -> [EmitErr(st, <<v>>) EXCEPT !.fin = (c.k = "tfstream")]
                          [] c.k = "flat_map" -> Need(st, v)
                          [] OTHER -> [st EXCEPT !.fid = v])
         ELSE (CASE r = "end" -> [st EXCEPT !.fid = -1, !.fin = (c.k \in {"fstream", "tfstream"})] [] r = "err" -> EmitErr(st, <<v>>) [] OTHER -> Emit(st, <<v>>))
    [] c.k \in Rr -> IF r = "end" THEN (IF Live(c, st) = {} THEN Fin(st) ELSE st) ELSE Emit(st, <<v>>)
    [] c.k \in {"funo", "fmuno", "tfuno"} ->
         IF k = 0 THEN (CASE r = "end" -> Settled(c, st) [] r = "err" -> EmitErr(st, <<v>>) [] c.k = "fmuno" -> Need(st, v) [] OTHER -> [st EXCEPT !.set = @ \cup {v}])
         ELSE (CASE r = "end" -> Settled(c, [st EXCEPT !.set = @ \ {k}]) [] r = "err" -> EmitErr(st, <<v>>) [] OTHER -> Emit(st, <<v>>))
    [] c.k \in {"buffered", "tbuffered", "bufun", "tbufun", "ordered", "unordered"} ->
         IF ev.e = "src" THEN (CASE r = "end" -> st [] r = "err" -> EmitErr(st, <<v>>) [] OTHER -> Add(st, v)) ELSE Finish(st, k, r, v)
    [] c.k \in {"fec", "tfec"} ->
         IF ev.e = "src" THEN (IF r = "end" THEN Settled(c, st) ELSE Need(st, v))
         ELSE IF r = "err" THEN Done(st, "err", <<v>>) ELSE Settled(c, [st EXCEPT !.set = @ \ {k}])
MAnswer(c, st, ev) == {MAns(c, st, ev)}
MCalled(c, st, ev) ==
  CASE c.k \in {"unfold", "tunfold"} -> If(st.stg = "call" /\ st.q = <<>> /\ ev.a = st.t, {InFut(st, ev.v)})
    [] c.k = "flat_map" -> If(st.stg = "call" /\ ev.a = <<st.cur>>, {[Idle(st) EXCEPT !.fid = ev.v]})
    [] c.k \in {"fmuno", "fec", "tfec"} -> If(st.stg = "call" /\ ev.a = <<st.cur>>, {[Idle(st) EXCEPT !.set = @ \cup {ev.v}]})
    [] c.k = "strategy" -> If(st.stg = "idle" /\ st.ans = {} /\ st.over = {}, {[st EXCEPT !.stg = "strat", !.cur = ev.v]})
    [] c.k = "peek" -> If(st.op = "nif" /\ st.stg = "idle" /\ st.s # <<>> /\ ev.a = st.s, {[st EXCEPT !.stg = "nif", !.cur = ev.v]})
    [] OTHER -> {}
DoneIdx(st, k) == {i \in 1 .. Len(st.s) : st.s[i][1] = k}
MPendOK(c, st) ==
  CASE c.k = "zip" -> Quiet(st) /\ (st.s = <<>> => 0 \in st.pend) /\ (st.t = <<>> => 1 \in st.pend)
    [] c.k = "chain" -> Quiet(st) /\ (IF 0 \in st.over THEN 1 ELSE 0) \in st.pend
    [] c.k = "take_until" -> Quiet(st) /\ 0 \in st.pend /\ (st.b \/ 1 \in st.pend)
    [] c.k \in {"ready_chunks", "tready_chunks", "peek"} -> Quiet(st) /\ st.s = <<>> /\ 0 \in st.pend
    [] c.k = "cycle" -> Quiet(st) /\ st.fid \in st.pend
    [] c.k = "poll_imm" -> FALSE
    [] c.k = "catch_unwind" -> Quiet(st) /\ 0 \in st.pend
    [] c.k \in {"unfold", "tunfold"} -> st.stg = "fut" /\ st.fid \in st.pend
    [] c.k \in Flat -> Quiet(st) /\ (IF st.fid # -1 THEN st.fid ELSE 0) \in st.pend
    [] c.k \in Rr -> Quiet(st) /\ Live(c, st) \subseteq st.pend
    [] c.k \in {"buffered", "tbuffered"} -> /\ Quiet(st) /\ st.set \subseteq st.pend /\ (IF st.t = <<>> THEN 0 \notin st.over ELSE Head(st.t) \in st.set)
                                           /\ (Len(st.t) < c.n => 0 \in st.over \cup st.pend)
    [] c.k \in {"ordered", "unordered"} -> st.set \subseteq st.pend /\ st.t # <<>> /\ (IF c.k = "ordered" THEN Head(st.t) \in st.set ELSE st.s = <<>>)
    [] c.k = "sall" -> Quiet(st) /\ st.set # {} /\ st.set \subseteq st.pend
    [] c.k \in Sets -> Quiet(st) /\ st.s = <<>> /\ st.set \subseteq st.pend /\ (Cardinality(st.set) < c.n => 0 \in st.over \cup st.pend)
\* inputs whose wakers outlive a poll because a task set (or shared state) keeps the outer waker for them
MSticky(c, st) == IF c.k \in {"funo", "fmuno", "tfuno"} THEN st.pend ELSE IF c.k \in {"ordered", "unordered", "sall"} THEN st.pend ELSE IF c.k \in Sets THEN st.pend \ {0} ELSE IF c.k = "select_all" THEN st.pend ELSE {}
Bump(c, st) == [st EXCEPT !.w = [i \in DOMAIN @ |-> IF i \in st.ans \/ i \in st.pend \/ i \in st.over \/ (c.k \notin Rr /\ i \notin st.set) THEN (IF i \in st.pend THEN @[i] ELSE 0) ELSE @[i] + 1]]
FairOK(c, st) == c.k \in {"strategy", "select_any"} \/ \A i \in DOMAIN st.w : st.w[i] <= (IF c.k = "select" THEN 1 ELSE IF c.k = "select_all" THEN c.n ELSE Cardinality(st.set) + 1)
Pop(c, s, ev) == If(s.q # <<>> /\ s.stg \in {"idle", "strat", "call"} /\ Head(s.q) = Out(ev.r, ev.v), {[s EXCEPT !.q = Tail(@)]})
End(s) == If(s.q = <<>> /\ s.fin /\ s.stg \in {"idle", "strat"}, {s})
Settle2(c, st) == [st EXCEPT !.fin = (st.t = <<>> /\ 0 \in st.over)]
MRet(c, s, ev) ==
  CASE c.k \in {"ready_chunks", "tready_chunks"} ->
         (CASE ev.r = "none" -> If(s.s = <<>> /\ s.q = <<>> /\ s.fin, {s})
            [] ev.r = "err" -> Pop(c, s, ev)
            [] OTHER -> If(s.q = <<>> /\ s.s # <<>> /\ ev.v = s.s /\ (Len(s.s) = c.n \/ 0 \in s.pend \/ s.fin), {[s EXCEPT !.s = <<>>]}))
    [] c.k = "peek" ->
         (CASE ev.r = "none" -> If(s.op = "next" /\ s.s = <<>> /\ s.fin, {s})
            [] ev.r = "peek" -> If(s.op \in {"peek"} /\ (IF s.s # <<>> THEN ev.v = s.s ELSE s.fin /\ ev.v = <<0>>), {s})
            [] ev.r = "pmut" -> If(s.op = "pmut" /\ (IF s.s # <<>> THEN ev.v[1] = s.s[1] ELSE s.fin /\ ev.v = <<0>>), {IF s.s # <<>> THEN [s EXCEPT !.s = <<ev.v[2]>>] ELSE s})
            [] ev.r = "nif" -> (CASE s.op = "nif" /\ s.stg = "nif" -> If(s.cur = 0 /\ ev.v = <<0>>, {Idle(s)})
                                  [] s.op = "nif" -> If(s.s = <<>> /\ s.fin /\ ev.v = <<0>>, {s})
                                  [] s.op = "nife" -> If(ev.v[1] = 0 /\ (IF s.s = <<>> THEN s.fin ELSE s.s[1] # ev.v[2]), {s})
                                  [] OTHER -> {})
            [] ev.r = "item" -> (CASE s.op = "next" -> If(s.s # <<>> /\ ev.v = s.s, {[s EXCEPT !.s = <<>>]})
                                   [] s.op = "nif" -> If(s.stg = "nif" /\ s.cur = 1 /\ ev.v = s.s, {[Idle(s) EXCEPT !.s = <<>>]})
                                   [] s.op = "nife" -> If(s.s # <<>> /\ ev.v = <<s.s[1], s.s[1]>>, {[s EXCEPT !.s = <<>>]})
                                   [] OTHER -> {})
            [] OTHER -> {})
    [] c.k = "poll_imm" -> IF ev.r = "item" /\ ev.v = <<0>> THEN If(s.q = <<>> /\ ~s.fin /\ 0 \in s.pend, {s})
                           ELSE IF ev.r = "none" THEN End(s) ELSE Pop(c, s, ev)
    [] c.k = "catch_unwind" -> IF s.stg = "panic" THEN If(ev.r = "err" /\ ev.v = <<>>, {Fin(s)}) ELSE IF ev.r = "none" THEN End(s) ELSE Pop(c, s, ev)
    [] c.k \in {"buffered", "tbuffered", "ordered"} ->
         (CASE s.q # <<>> -> Pop(c, s, ev)
            [] ev.r = "none" -> If(s.t = <<>> /\ (c.k = "ordered" \/ 0 \in s.over), {s})
            [] OTHER -> If(s.t # <<>> /\ \E i \in DoneIdx(s, Head(s.t)) : s.s[i][2] = (IF ev.r = "item" THEN "ready" ELSE "err") /\ <<s.s[i][3]>> = ev.v, {[s EXCEPT !.t = Tail(@)]}))
    [] c.k \in {"bufun", "tbufun", "unordered"} ->
         (CASE s.q # <<>> -> Pop(c, s, ev)
            [] ev.r = "none" -> If(s.set = {} /\ s.s = <<>> /\ (c.k = "unordered" \/ 0 \in s.over), {s})
            [] OTHER -> {[s EXCEPT !.s = SelectSeq(@, LAMBDA x : x # s.s[i]), !.t = SelectSeq(@, LAMBDA x : x # s.s[i][1])] :
                          i \in {j \in 1 .. Len(s.s) : s.s[j][2] = (IF ev.r = "item" THEN "ready" ELSE "err") /\ <<s.s[j][3]>> = ev.v}})
    [] c.k = "sall" /\ ev.r = "none" -> If(s.q = <<>> /\ s.set = {}, {s})
    [] ev.r = "none" -> End(s)
    [] c.k = "tfuno" /\ s.last = 0 -> Pop(c, s, ev)      \* an error of the source itself goes ahead of everything
    [] OTHER -> LET b == Bump(c, s) IN If(FairOK(c, b), Pop(c, b, ev))
\* push, clear, len, members: FuturesOrdered / FuturesUnordered / SelectAll; clone: cycle restarts from a clone of its stream;
\* tfut, tres, stopped: what take_until's owner asks of it
MExtra(c, s, ev) ==
  CASE ev.e = "push" -> {[s EXCEPT !.set = @ \cup {ev.k}, !.t = IF ev.front THEN <<ev.k>> \o @ ELSE Append(@, ev.k)]}
    [] ev.e = "clear" -> {[s EXCEPT !.set = {}, !.t = <<>>, !.s = <<>>, !.pend = {}]}
    [] ev.e = "clone" -> {IF s.fid = -1 THEN [s EXCEPT !.fid = ev.k] ELSE s}
    [] ev.e = "len" -> LET n == IF c.k = "ordered" THEN Len(s.t) ELSE Cardinality(s.set) IN If(ev.v = n /\ ev.e2 = (n = 0), {s})
    [] ev.e = "members" -> If(Len(ev.v) = Cardinality(s.set) /\ Range(ev.v) = s.set, {s})
    [] ev.e = "tfut" -> IF ev.v = 1 THEN If(~s.b /\ ~s.fin, {[s EXCEPT !.b = TRUE, !.pend = @ \ {1}]}) ELSE If(s.b \/ s.fin, {s})
    [] ev.e = "tres" -> If(ev.v = (IF s.s = <<>> THEN 0 ELSE s.s[1]), {[s EXCEPT !.s = <<>>]})
    [] ev.e = "stopped" -> If((ev.v => s.fin) /\ (1 \in s.over => ev.v), {s})
    [] OTHER -> {}
=============================================================================
