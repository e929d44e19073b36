------------------------------ MODULE AdaptMC ------------------------------
(* The machines of Adapt against the sequence-level meaning of the adapters *)
(* (C18, C19, C23): outputs, closure arguments, end, laziness, completeness *)
(* whenever the adapter is pending.                                         *)
EXTENDS SeqMC, Adapt
Preds == {"filter", "skip_while", "take_while", "all", "any", "try_filter", "try_skip_while", "try_take_while", "try_all", "try_any"}
Falls == {"map_ok", "map_err", "inspect_ok", "inspect_err", "and_then", "or_else", "try_filter", "try_filter_map", "try_take_while", "try_skip_while", "try_chunks",
          "try_fold", "try_for_each", "try_all", "try_any", "try_collect", "try_next"}
Simple == {"map", "inspect", "filter", "filter_map", "then", "take_while", "skip_while", "scan", "fold", "for_each", "all", "any", "enumerate", "collect", "count", "unzip", "next", "id"}
AllCfgs == {[k |-> k, n |-> 0, init |-> 7, fused |-> FALSE] : k \in (Simple \cup Falls) \ {"try_chunks"}}
           \cup {[k |-> k, n |-> n, init |-> 7, fused |-> FALSE] : k \in {"take", "skip"}, n \in 0 .. 2}
           \cup {[k |-> k, n |-> n, init |-> 7, fused |-> FALSE] : k \in {"chunks", "try_chunks"}, n \in 1 .. 3}
AEnv(c, s, g) ==
  {Src(0, "pend", 0), Src(0, "end", 0), Src(0, "item", Fresh)} \cup If(c.k \in Falls, {Src(0, "err", Fresh)})
  \cup If(s.stg = "call", {Call("f", Args(c, s), IF c.k \in FutKinds THEN 100 + Fresh ELSE 200 + Fresh)})
  \cup If(s.stg = "fut", {Fut(s.fid, "pend", 0)} \cup {Fut(s.fid, "ready", v) : v \in IF c.k \in Preds THEN {0, 1} ELSE IF c.k \in {"filter_map", "try_filter_map", "scan"} THEN {0, 300 + Fresh} ELSE {300 + Fresh}}
                        \cup If(c.k \in Falls, {Fut(s.fid, "err", 400 + Fresh)}))
  \cup Owed(s)
\* One entry per answer of the source: r, v, a/c (closure called with a answered c), f (what its future answered)
Entry(acc, e) ==
  LET n == Len(acc) IN
  CASE e.e = "src" -> Append(acc, [r |-> e.r, v |-> e.v, a |-> <<>>, c |-> -1, f |-> <<>>])
    [] e.e = "call" -> [acc EXCEPT ![n].a = e.a, ![n].c = e.v]
    [] e.e = "fut" -> [acc EXCEPT ![n].f = <<e.r, e.v>>]
    [] OTHER -> acc
En == Fold(Entry, <<>>, log)
All == SelectSeq(En, LAMBDA e : e.r # "end")
Ended == \E i \in 1 .. Len(En) : En[i].r = "end"
Is(e, v) == e.f = <<"ready", v>>
Not0(e) == e.f # <<>> /\ e.f[1] = "ready" /\ e.f[2] # 0
\* errors pass through in position
Wrap(e, F(_)) == IF e.r = "err" THEN <<Er(<<e.v>>)>> ELSE IF e.f # <<>> /\ e.f[1] = "err" THEN <<Er(<<e.f[2]>>)>> ELSE F(e)
Each(c, s) ==
  CASE c.k \in {"map", "map_ok"} -> PerElem(s, LAMBDA e : Wrap(e, LAMBDA x : If2(x.c # -1, It(<<x.c>>))))
    [] c.k \in {"inspect", "inspect_ok"} -> PerElem(s, LAMBDA e : Wrap(e, LAMBDA x : If2(x.c # -1, It(<<x.v>>))))
    [] c.k = "map_err" -> PerElem(s, LAMBDA e : IF e.r = "item" THEN <<It(<<e.v>>)>> ELSE If2(e.c # -1, Er(<<e.c>>)))
    [] c.k = "inspect_err" -> PerElem(s, LAMBDA e : IF e.r = "item" THEN <<It(<<e.v>>)>> ELSE If2(e.c # -1, Er(<<e.v>>)))
    [] c.k \in {"filter", "try_filter"} -> PerElem(s, LAMBDA e : Wrap(e, LAMBDA x : If2(Is(x, 1), It(<<x.v>>))))
    [] c.k \in {"filter_map", "try_filter_map"} -> PerElem(s, LAMBDA e : Wrap(e, LAMBDA x : If2(Not0(x), It(<<x.f[2]>>))))
    [] c.k \in {"then", "and_then"} -> PerElem(s, LAMBDA e : Wrap(e, LAMBDA x : If2(x.f # <<>>, It(<<x.f[2]>>))))
    [] c.k = "or_else" -> PerElem(s, LAMBDA e : IF e.r = "item" THEN <<It(<<e.v>>)>> ELSE IF e.f = <<>> THEN <<>> ELSE <<Out(IF e.f[1] = "ready" THEN "item" ELSE "err", <<e.f[2]>>)>>)
    [] OTHER -> PerElem(s, LAMBDA e : Wrap(e, LAMBDA x : <<It(<<x.v>>)>>))
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Vals(s) == [i \in 1 .. Len(s) |-> s[i].v]
RECURSIVE Chunk(_, _, _, _)
Chunk(n, s, buf, fin) ==
  IF s = <<>> THEN (IF fin /\ buf # <<>> THEN <<It(buf)>> ELSE <<>>)
  ELSE IF Head(s).r = "err" THEN <<Er(Append(buf, Head(s).v))>> \o Chunk(n, Tail(s), <<>>, fin)
  ELSE IF Len(buf) + 1 = n THEN <<It(Append(buf, Head(s).v))>> \o Chunk(n, Tail(s), <<>>, fin)
  ELSE Chunk(n, Tail(s), Append(buf, Head(s).v), fin)
\* number of entries up to (and without) the one that cuts the stream short
CutAt == CASE cfg.k \in {"take_while", "try_take_while", "scan"} -> LeadLen(All, LAMBDA e : ~Is(e, 0))
           [] cfg.k = "take" -> IF Len(All) > cfg.n THEN cfg.n ELSE Len(All)
           [] OTHER -> Len(All)
Cut == IF cfg.k = "take" THEN Len(All) = cfg.n ELSE cfg.k \in {"take_while", "try_take_while", "scan"} /\ CutAt < Len(All)
Meaning ==
  CASE cfg.k \in {"take_while", "try_take_while"} -> PerElem(SubSeq(All, 1, CutAt), LAMBDA e : Wrap(e, LAMBDA x : If2(Is(x, 1), It(<<x.v>>))))
    [] cfg.k = "scan" -> PerElem(SubSeq(All, 1, CutAt), LAMBDA e : If2(Not0(e), It(<<e.f[2]>>)))
    [] cfg.k \in {"skip_while", "try_skip_while"} ->
         LET \* the first entry whose predicate said no, and everything after it; errors before it pass through
             n == LeadLen(All, LAMBDA e : ~Is(e, 0))
         IN PerElem(SubSeq(All, 1, n), LAMBDA e : Wrap(e, LAMBDA x : <<>>)) \o Each([k |-> "id"], Drop(All, n))
    [] cfg.k = "take" -> Each(cfg, SubSeq(All, 1, CutAt))
    [] cfg.k = "skip" -> Each(cfg, Drop(All, cfg.n))
    [] cfg.k = "enumerate" -> [i \in 1 .. Len(All) |-> It(<<i - 1, All[i].v>>)]
    [] cfg.k \in {"chunks", "try_chunks"} -> Chunk(cfg.n, All, <<>>, Ended)
    [] OTHER -> Each(cfg, All)
\* Consumers: at most one result
FirstErr == SelectSeq(All, LAMBDA e : e.r = "err" \/ (e.f # <<>> /\ e.f[1] = "err"))
Hit(v) == \E i \in 1 .. Len(All) : Is(All[i], v)
LastF == LET s == SelectSeq(All, LAMBDA e : e.f # <<>>) IN IF s = <<>> THEN cfg.init ELSE s[Len(s)].f[2]
Result ==
  CASE FirstErr # <<>> -> <<Wrap(FirstErr[1], LAMBDA x : x)[1]>>
    [] cfg.k \in {"all", "try_all"} -> IF Hit(0) THEN <<Val(<<0>>)>> ELSE If2(Ended, Val(<<1>>))
    [] cfg.k \in {"any", "try_any"} -> IF Hit(1) THEN <<Val(<<1>>)>> ELSE If2(Ended, Val(<<0>>))
    [] cfg.k \in {"next", "try_next"} -> IF All # <<>> THEN <<Val(<<All[1].v>>)>> ELSE If2(Ended, Val(<<0>>))
    [] ~Ended -> <<>>
    [] cfg.k \in {"fold", "try_fold"} -> <<Val(<<LastF>>)>>
    [] cfg.k \in {"for_each", "try_for_each"} -> <<Val(<<>>)>>
    [] cfg.k \in {"collect", "try_collect"} -> <<Val(Vals(All))>>
    [] cfg.k = "unzip" -> <<Val(Vals(All) \o Vals(All))>>
    [] cfg.k = "count" -> <<Val(<<Len(All)>>)>>
Want == IF cfg.k \in Consumer THEN Result ELSE Meaning
Sound == IsPrefix(Yielded, Want)
Complete == quiet => Yielded = Want /\ ~(cfg.k \notin Consumer /\ (Ended \/ Cut))
EndRight == (\E i \in 1 .. Len(Outs) : Outs[i].r = "none") => Yielded = Want /\ (Ended \/ Cut \/ cfg.k \in Consumer)
Lazy == (cfg.k = "take" => Len(All) <= cfg.n) /\ (Cut => ~Ended /\ CutAt + (IF cfg.k = "take" THEN 0 ELSE 1) = Len(All))
\* closures see every item (error) once, in order, and the state the previous answer left
Seen == \A i \in 1 .. Len(All) :
          LET e == All[i] IN
          e.a # <<>> => IF cfg.k \in {"fold", "try_fold", "scan"}
                        THEN e.a[2] = e.v /\ e.a[1] = (IF i = 1 THEN cfg.init ELSE IF cfg.k = "scan" THEN All[i - 1].f[2] + 1 ELSE All[i - 1].f[2])
                        ELSE e.a = <<e.v>>
=============================================================================
