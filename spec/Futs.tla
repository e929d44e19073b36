-------------------------------- MODULE Futs -------------------------------
(* Future adapters (C28), joins (C16), selects (C17) and the constructors of *)
(* trivial streams. Inputs are scripted futures (numbered from 0) and, in    *)
(* select! loops, one stream.                                                *)
EXTENDS SeqCore
One == {"id", "map", "inspect", "then", "flatten", "map_ok", "map_err", "inspect_ok", "inspect_err", "and_then", "or_else", "unwrap_or_else", "map_ok_or_else",
        "try_flatten", "fuse", "option", "into_stream", "catch_unwind", "poll_imm", "poll_imms", "strm", "ilp", "ilps", "ponce"}
Pends == {"ilp", "ilps", "ponce"}     \* test helpers: b: was pending (and woke the task) before polling the inner future
Parts(c) == 0 .. (c.n - 1)
\* fid: the future awaited by a one-future adapter; s: results by position (join) / stored output (maybe_done); t: the list a select chooses from; cur: answer not yet handled
FInit(c) ==
  LET z == [Core0 EXCEPT !.fid = IF c.k \in One THEN 0 ELSE -1] IN
  CASE c.k = "option" /\ c.n = 0 -> Done(z, "val", <<0>>)
    [] c.k = "iter1" -> Done(z, "val", <<c.init>>)
    [] c.k = "iter1e" -> Done(z, "err", <<c.init>>)
    [] c.k = "pair" -> Done(z, "val", <<c.init, c.init + 1>>)
    [] c.k = "iter" -> [z EXCEPT !.q = [i \in 1 .. c.n |-> Out("item", <<c.init + i - 1>>)], !.fin = TRUE]
    [] c.k = "lazy" -> [z EXCEPT !.stg = "call"]
    [] c.k = "join" -> IF c.n = 0 THEN Done(z, "val", <<>>) ELSE [z EXCEPT !.s = [i \in 1 .. c.n |-> 0]]
    [] c.k \in {"sel", "sel1"} -> [z EXCEPT !.t = [i \in 1 .. c.n |-> i - 1]]
    [] OTHER -> z
Live(c, st) == Parts(c) \ st.over
FCanPoll(c, st, k) ==
  CASE c.k \in One -> Quiet(st) /\ st.stg \in {"idle", "fut"} /\ k = st.fid /\ (c.k \in Pends => st.b)
    [] c.k = "maybe_done" -> k = 0 /\ ~st.b /\ st.op = "poll"
    [] c.k \in {"join", "select_ok"} -> Quiet(st) /\ k \in Live(c, st)
    [] c.k \in {"sel", "sel1"} -> st.q = <<>> /\ k \in Range(st.t)
    [] c.k = "selm" -> st.stg = "idle" /\ Quiet(st) /\ k \in Live(c, st) /\ (c.init = 1 => \A j \in Live(c, st) : j < k => j \in st.ans)
    [] OTHER -> FALSE
Second == {"then", "flatten", "and_then", "or_else", "try_flatten"}
Pos(s, x) == CHOOSE i \in 1 .. Len(s) : s[i] = x
FAns(c, st, ev) ==
  LET k == ev.k r == ev.r v == ev.v ok == r \in {"ready", "item"} IN
  CASE c.k \in Second /\ st.stg = "fut" -> Done(st, IF ok THEN "val" ELSE "err", <<v>>)
    [] c.k \in {"map", "inspect", "then"} -> Need(st, v)
    [] c.k = "flatten" -> InFut(st, v)
    [] c.k \in {"map_ok", "inspect_ok", "and_then"} -> IF ok THEN Need(st, v) ELSE Done(st, "err", <<v>>)
    [] c.k \in {"map_err", "inspect_err", "or_else", "unwrap_or_else"} -> IF ok THEN Done(st, "val", <<v>>) ELSE Need(st, v)
    [] c.k = "map_ok_or_else" -> [Need(st, v) EXCEPT !.b = ok]
    [] c.k = "try_flatten" -> IF ok THEN InFut(st, v) ELSE Done(st, "err", <<v>>)
    [] c.k \in {"strm", "ilps"} -> IF r = "end" THEN Fin(st) ELSE IF ok THEN Emit(st, <<v>>) ELSE EmitErr(st, <<v>>)
    [] c.k \in {"into_stream", "poll_imms"} -> Fin(Emit(st, <<v>>))
    [] c.k = "maybe_done" -> IF ok THEN [st EXCEPT !.b = TRUE, !.s = <<v>>, !.q = <<Out("unit", <<>>)>>] ELSE [st EXCEPT !.b = TRUE, !.s = <<>>, !.q = <<Out("err", <<v>>)>>]
    [] c.k = "join" -> IF ~ok THEN Done(st, "err", <<v>>)
                       ELSE LET n == [st EXCEPT !.s[k + 1] = v] IN IF Live(c, st) = {} THEN Done(n, "val", n.s) ELSE n
    [] c.k = "select_ok" -> IF ok THEN [st EXCEPT !.cur = v, !.stg = "got", !.fin = TRUE] ELSE IF Live(c, st) = {} THEN Done(st, "err", <<v>>) ELSE st
    [] c.k \in {"sel", "sel1"} -> [st EXCEPT !.stg = "got", !.cur = v, !.fid = k, !.b = ok, !.q = <<Out("sel", <<>>)>>]
    [] c.k = "selm" -> IF r = "end" THEN (IF c.n = 3 /\ c.init >= 0 THEN [st EXCEPT !.t = <<k>>] ELSE [st EXCEPT !.t = <<k>>]) ELSE [st EXCEPT !.stg = "got", !.cur = v, !.fid = k]
    [] OTHER -> Done(st, IF ok THEN "val" ELSE "err", <<v>>)
FAnswer(c, st, ev) == {FAns(c, st, ev)}
FCalled(c, st, ev) ==
  CASE c.k = "lazy" -> If(st.stg = "call" /\ ev.a = <<>>, {Done(st, "val", <<ev.v>>)})
    [] c.k \in {"repeat_with", "always"} -> If(st.q = <<>> /\ ev.a = <<>>, {Emit(st, <<ev.v>>)})
    [] st.stg # "call" \/ ev.a # <<st.cur>> \/ ev.f # (IF c.k = "map_ok_or_else" /\ ~st.b THEN "g" ELSE "f") -> {}
    [] c.k \in {"map", "map_ok", "unwrap_or_else", "map_ok_or_else"} -> {Done(st, "val", <<ev.v>>)}
    [] c.k = "map_err" -> {Done(st, "err", <<ev.v>>)}
    [] c.k \in {"inspect", "inspect_ok"} -> {Done(st, "val", <<st.cur>>)}
    [] c.k = "inspect_err" -> {Done(st, "err", <<st.cur>>)}
    [] c.k \in {"then", "and_then", "or_else"} -> {InFut(st, ev.v)}
    [] OTHER -> {}
FPendOK(c, st) ==
  CASE c.k \in One -> c.k \notin {"poll_imm", "poll_imms"} /\ Quiet(st) /\ st.fid \in st.pend
    [] c.k = "maybe_done" -> ~st.b /\ 0 \in st.pend
    [] c.k \in {"join", "select_ok"} -> Quiet(st) /\ Live(c, st) \subseteq st.pend
    [] c.k \in {"sel", "sel1"} -> st.q = <<>> /\ st.t # <<>> /\ Range(st.t) \subseteq st.pend
    [] c.k = "selm" -> st.stg = "idle" /\ Quiet(st) /\ Live(c, st) \subseteq st.pend /\ Live(c, st) # {}
    [] OTHER -> FALSE
\* large joins keep a waker per part
FSticky(c, st) == IF c.k = "join" /\ c.init = 1 THEN st.pend ELSE {}
IsPerm(a, S) == Len(a) = Cardinality(S) /\ Range(a) = S
FRet(c, s, ev) ==
  CASE c.k \in {"ilp", "ilps"} -> If(s.b, {[x EXCEPT !.b = FALSE] : x \in (IF ev.r = "none" THEN If(s.q = <<>> /\ s.fin, {s}) ELSE If(s.q # <<>> /\ Head(s.q) = Out(ev.r, ev.v), {[s EXCEPT !.q = Tail(@)]}))})
    [] c.k = "fuse" /\ ev.r = "dead" -> If(s.q = <<>> /\ s.fin, {s})
    [] c.k = "catch_unwind" /\ s.stg = "panic" -> If(ev.r = "err" /\ ev.v = <<>>, {Fin(s)})
    [] c.k = "poll_imm" /\ ev.v = <<0>> -> If(ev.r = "val" /\ Quiet(s) /\ 0 \in s.pend, {s})
    [] c.k = "poll_imms" /\ ev.v = <<0>> -> If(ev.r = "item" /\ Quiet(s) /\ 0 \in s.pend, {s})
    [] c.k = "maybe_done" ->
         (CASE ev.r = "none" -> {s}                      \* end of the test
            [] ev.r = "took" -> If(s.op = "take" /\ ev.v = (IF s.s = <<>> THEN <<0>> ELSE s.s), {[s EXCEPT !.s = <<>>]})
            [] ev.r = "saw" -> If(s.op = "mut" /\ (IF s.s = <<>> THEN ev.v = <<0>> ELSE ev.v[1] = s.s[1]), {IF s.s = <<>> THEN s ELSE [s EXCEPT !.s = <<ev.v[2]>>]})
            [] OTHER -> If(s.op = "poll" /\ s.b /\ (IF s.q # <<>> THEN Out(ev.r, ev.v) = Head(s.q) ELSE ev.r = "unit" /\ s.s # <<>>), {[s EXCEPT !.q = <<>>]}))
    [] c.k = "select_ok" /\ ev.r = "val" -> If(s.stg = "got" /\ ev.v[1] = s.cur /\ IsPerm(Tail(ev.v), Live(c, s)), {[Idle(s) EXCEPT !.fin = TRUE]})
    [] c.k = "sel1" -> If(s.q # <<>> /\ ev.r = "val" /\ ev.v = <<s.fid, s.cur, 1 - s.fid>>, {[s EXCEPT !.q = <<>>, !.fin = TRUE]})
    [] c.k = "sel" -> IF ev.r = "none" THEN If(s.q = <<>> /\ s.t = <<>>, {s})
                      ELSE If(/\ s.q # <<>> /\ ev.r = (IF s.b THEN "item" ELSE "err") /\ ev.v[2] = s.cur
                              /\ ev.v[1] < Len(s.t) /\ s.t[ev.v[1] + 1] = s.fid
                              /\ IsPerm(SubSeq(ev.v, 3, Len(ev.v)), Range(s.t) \ {s.fid}),
                              {[s EXCEPT !.q = <<>>, !.stg = "idle", !.t = SubSeq(ev.v, 3, Len(ev.v))]})
    [] c.k = "never" -> If(ev.r \in {"dead", "none"}, {s})
    [] c.k = "always" /\ ev.r = "none" -> If(s.q = <<>>, {s})
    [] c.k = "repeat" -> If(ev.r = "item" /\ ev.v = <<c.init>>, {s})
    [] OTHER -> CASE ev.r = "none" -> If(s.q = <<>> /\ s.fin /\ s.stg = "idle", {s})
                  [] OTHER -> If(s.q # <<>> /\ s.stg = "idle" /\ Head(s.q) = Out(ev.r, ev.v), {[s EXCEPT !.q = Tail(@)]})
\* enter: a select! is evaluated (anew); arm: one of its arms runs: a branch, complete (-1), default (-2), end of the test (-3)
FExtra(c, s, ev) ==
  CASE ev.e = "enter" -> If(c.k = "selm" /\ s.stg = "idle" /\ Quiet(s), {[s EXCEPT !.ans = {}, !.t = <<>>]})
    [] ev.e = "arm" /\ ev.i >= 0 -> If((s.stg = "got" /\ ev.i = s.fid /\ ev.v = s.cur) \/ (s.stg = "idle" /\ s.t = <<ev.i>> /\ ev.v = 0), {Idle(s)})
    [] ev.e = "arm" /\ ev.i = -1 -> If(s.stg = "idle" /\ Live(c, s) = {}, {Done(s, "val", <<>>)})
    [] ev.e = "arm" /\ ev.i = -2 -> If(s.stg = "idle" /\ Live(c, s) \subseteq s.ans /\ s.ans # {}, {[s EXCEPT !.pend = {}]})
    [] ev.e = "arm" /\ ev.i = -3 -> {Done(s, "val", <<>>)}
    [] OTHER -> {}
=============================================================================
