------------------------------- MODULE Adapt -------------------------------
(* Stream adapters and consumers with one source stream (input 0) that      *)
(* treat its items one after the other, infallible and fallible.            *)
EXTENDS SeqCore
\* kinds whose closure is called with every item (success)
CallItem == {"map", "inspect", "filter", "filter_map", "then", "take_while", "scan", "fold", "for_each", "all", "any",
             "map_ok", "inspect_ok", "and_then", "try_filter", "try_filter_map", "try_take_while", "try_fold", "try_for_each", "try_all", "try_any"}
\* kinds whose closure is called with every error
CallErr == {"map_err", "inspect_err", "or_else"}
FutKinds == {"filter", "filter_map", "then", "take_while", "skip_while", "scan", "fold", "for_each", "all", "any",
             "and_then", "or_else", "try_filter", "try_filter_map", "try_take_while", "try_skip_while", "try_fold", "try_for_each", "try_all", "try_any"}
Consumer == {"fold", "for_each", "all", "any", "collect", "count", "unzip", "next", "try_fold", "try_for_each", "try_all", "try_any", "try_collect", "try_next", "next_some"}
AInit(c) == [Core0 EXCEPT !.n = IF c.k = "enumerate" \/ c.k = "count" THEN 0 ELSE c.n, !.cur = 0,
                          !.fin = (c.k = "take" /\ c.n = 0), !.t = <<c.init>>]
ACanPoll(c, st, k) == IF st.stg = "fut" THEN k = st.fid
                      ELSE k = 0 /\ st.stg = "idle" /\ st.q = <<>> /\ ~st.fin
AEnd(c, st) ==
  CASE c.k \in {"chunks", "try_chunks"} -> IF st.s = <<>> THEN Fin(st) ELSE Fin([Emit(st, st.s) EXCEPT !.s = <<>>])
    [] c.k \in {"fold", "try_fold"} -> Done(st, "val", st.t)
    [] c.k \in {"for_each", "try_for_each"} -> Done(st, "val", <<>>)
    [] c.k \in {"all", "try_all"} -> Done(st, "val", <<1>>)
    [] c.k \in {"any", "try_any"} -> Done(st, "val", <<0>>)
    [] c.k \in {"collect", "try_collect"} -> Done(st, "val", st.s)
    [] c.k = "unzip" -> Done(st, "val", st.s \o st.s)
    [] c.k = "count" -> Done(st, "val", <<st.n>>)
    [] c.k \in {"next", "try_next"} -> Done(st, "val", <<0>>)
    [] OTHER -> Fin(st)
AItem(c, st, v) ==
  CASE c.k \in CallItem -> Need(st, v)
    [] c.k \in {"skip_while", "try_skip_while"} -> IF st.b THEN Emit(st, <<v>>) ELSE Need(st, v)
    [] c.k = "enumerate" -> [Emit(st, <<st.n, v>>) EXCEPT !.n = @ + 1]
    [] c.k = "take" -> [Emit(st, <<v>>) EXCEPT !.n = @ - 1, !.fin = (st.n = 1)]
    [] c.k = "skip" -> IF st.n > 0 THEN [st EXCEPT !.n = @ - 1] ELSE Emit(st, <<v>>)
    [] c.k \in {"chunks", "try_chunks"} -> IF Len(st.s) + 1 = c.n THEN [Emit(st, Append(st.s, v)) EXCEPT !.s = <<>>] ELSE [st EXCEPT !.s = Append(@, v)]
    [] c.k \in {"collect", "try_collect", "unzip"} -> [st EXCEPT !.s = Append(@, v)]
    [] c.k = "count" -> [st EXCEPT !.n = @ + 1]
    [] c.k \in {"next", "try_next", "next_some"} -> Done(st, "val", <<v>>)
    [] OTHER -> Emit(st, <<v>>)
AErr(c, st, v) ==
  CASE c.k \in CallErr -> Need(st, v)
    [] c.k \in Consumer -> Done(st, "err", <<v>>)
    [] c.k = "try_chunks" -> [EmitErr(st, Append(st.s, v)) EXCEPT !.s = <<>>]
    [] OTHER -> EmitErr(st, <<v>>)
AResolve(c, st, v) ==
  CASE c.k \in {"filter", "try_filter"} -> IF v = 1 THEN Emit(st, <<st.cur>>) ELSE Idle(st)
    [] c.k \in {"filter_map", "try_filter_map"} -> IF v # 0 THEN Emit(st, <<v>>) ELSE Idle(st)
    [] c.k \in {"then", "and_then", "or_else"} -> Emit(st, <<v>>)
    [] c.k \in {"skip_while", "try_skip_while"} -> IF v = 1 THEN Idle(st) ELSE [Emit(st, <<st.cur>>) EXCEPT !.b = TRUE]
    [] c.k \in {"take_while", "try_take_while"} -> IF v = 1 THEN Emit(st, <<st.cur>>) ELSE Fin(st)
    [] c.k = "scan" -> IF v # 0 THEN [Emit(st, <<v>>) EXCEPT !.t = <<v + 1>>] ELSE Fin(st)
    [] c.k \in {"fold", "try_fold"} -> [Idle(st) EXCEPT !.t = <<v>>]
    [] c.k \in {"for_each", "try_for_each"} -> Idle(st)
    [] c.k \in {"all", "try_all"} -> IF v = 1 THEN Idle(st) ELSE Done(st, "val", <<0>>)
    [] c.k \in {"any", "try_any"} -> IF v = 0 THEN Idle(st) ELSE Done(st, "val", <<1>>)
AAnswer(c, st, ev) ==
  {IF ev.e = "fut" THEN (IF ev.r = "ready" THEN AResolve(c, st, ev.v)
                         ELSE IF c.k \in Consumer THEN Done(st, "err", <<ev.v>>) ELSE EmitErr(st, <<ev.v>>))
   ELSE CASE ev.r = "item" -> AItem(c, st, ev.v) [] ev.r = "err" -> AErr(c, st, ev.v) [] ev.r = "end" -> AEnd(c, st)}
Args(c, st) == IF c.k \in {"scan", "fold", "try_fold"} THEN Append(st.t, st.cur) ELSE <<st.cur>>
ACalled(c, st, ev) ==
  IF st.stg # "call" \/ ev.a # Args(c, st) THEN {}
  ELSE {IF c.k \in FutKinds THEN InFut(st, ev.v)
        ELSE CASE c.k \in {"map", "map_ok"} -> Emit(st, <<ev.v>>)
               [] c.k \in {"inspect", "inspect_ok"} -> Emit(st, <<st.cur>>)
               [] c.k = "map_err" -> EmitErr(st, <<ev.v>>)
               [] c.k = "inspect_err" -> EmitErr(st, <<st.cur>>)}
APendOK(c, st) == Quiet(st) /\ (IF st.stg = "fut" THEN st.fid ELSE 0) \in st.pend
ASticky(c, st) == {}
=============================================================================
