------------------------------- MODULE FutsMC ------------------------------
(* The machines of Futs against the functional meaning of future adapters   *)
(* (C28), joins (C16) and selects (C17).                                    *)
EXTENDS SeqMC, Futs
Adapters == {"id", "map", "inspect", "then", "flatten", "map_ok", "map_err", "inspect_ok", "inspect_err", "and_then", "or_else", "unwrap_or_else", "map_ok_or_else",
             "try_flatten", "fuse", "option", "into_stream"}
Fallible == {"map_ok", "map_err", "inspect_ok", "inspect_err", "and_then", "or_else", "unwrap_or_else", "map_ok_or_else", "try_flatten", "join", "sel", "sel1", "select_ok"}
Cf(k, n, i) == [k |-> k, n |-> n, init |-> i, fused |-> FALSE]
AllCfgs == {Cf(k, 1, 0) : k \in Adapters} \cup {Cf("join", n, i) : n \in 0 .. 3, i \in 0 .. 1} \cup {Cf("select_ok", n, 0) : n \in 1 .. 3}
           \cup {Cf("sel", n, 0) : n \in 1 .. 3} \cup {Cf("sel1", 2, 0)} \cup {Cf("selm", n, i) : n \in 1 .. 2, i \in 0 .. 1}
Perms(S) == {p \in [1 .. Cardinality(S) -> S] : Range(p) = S}
Inputs(c) == IF c.k \in Adapters THEN {0} ELSE Parts(c)
Simple(k, c) == {Fut(k, "pend", 0), Fut(k, "ready", (IF c.k \in {"flatten", "try_flatten"} /\ k = 0 THEN 100 ELSE 300) + Fresh)} \cup If(c.k \in Fallible, {Fut(k, "err", 400 + Fresh)})
FEnv(c, s, g) ==
  UNION {IF c.k = "selm" /\ k = 0 THEN {Src(0, "pend", 0), Src(0, "item", 300 + Fresh), Src(0, "end", 0)} ELSE Simple(k, c) : k \in Inputs(c) \cup If(c.k \in Adapters /\ s.stg = "fut", {s.fid})}
  \cup If(s.stg = "call", {Call(f, <<s.cur>>, (IF c.k \in {"then", "and_then", "or_else"} THEN 100 ELSE 200) + Fresh) : f \in {"f", "g"}})
  \cup Owed(s)
  \cup If(c.k = "select_ok", {RetE("val", <<s.cur>> \o p) : p \in Perms(Live(c, s))})
  \cup If(c.k = "sel1", {RetE("val", <<i, s.cur, 1 - i>>) : i \in 0 .. 1})
  \cup If(c.k = "sel" /\ s.fid # -1, {RetE(r, <<i, s.cur>> \o p) : r \in {"item", "err"}, i \in 0 .. 2, p \in Perms(Range(s.t) \ {s.fid})})
  \cup If(c.k = "selm", If(g # <<>> /\ g[Len(g)].e = "arm", {[e |-> "enter", r |-> "x"]}) \cup {[e |-> "arm", r |-> "x", i |-> i, v |-> v] : i \in -2 .. (c.n - 1), v \in {0, s.cur}})
Ans(k) == LET a == Said(k) IN IF a = <<>> THEN <<>> ELSE <<a[1].r, a[1].v>>
\* one-future adapters: the first future's answer, the closure's, the second future's
A0 == Ans(0)
C1 == IF Calls = <<>> THEN <<>> ELSE <<Calls[1].a[1], Calls[1].v, Calls[1].f>>
A1 == LET s == SelectSeq(log, LAMBDA e : e.e = "fut" /\ e.k # 0) IN IF s = <<>> THEN <<>> ELSE <<s[1].r, s[1].v>>
As(a) == IF a = <<>> THEN <<>> ELSE <<Out(IF a[1] = "ready" THEN "val" ELSE "err", <<a[2]>>)>>
One1 ==
  LET ok == A0[1] = "ready" IN
  CASE A0 = <<>> -> <<>>
    [] cfg.k \in {"id", "fuse", "option"} -> As(A0)
    [] cfg.k = "into_stream" -> <<It(<<A0[2]>>)>>
    [] cfg.k \in {"flatten"} -> As(A1)
    [] cfg.k = "try_flatten" -> IF ok THEN As(A1) ELSE As(A0)
    [] cfg.k = "then" -> As(A1)
    [] cfg.k = "and_then" -> IF ok THEN As(A1) ELSE As(A0)
    [] cfg.k = "or_else" -> IF ok THEN As(A0) ELSE As(A1)
    [] cfg.k \in {"map_ok", "inspect_ok"} /\ ~ok -> As(A0)
    [] cfg.k \in {"map_err", "inspect_err", "unwrap_or_else"} /\ ok -> As(A0)
    [] C1 = <<>> -> <<>>
    [] cfg.k \in {"inspect", "inspect_ok"} -> As(A0)
    [] cfg.k = "inspect_err" -> As(A0)
    [] cfg.k = "map_err" -> <<Er(<<C1[2]>>)>>
    [] OTHER -> <<Val(<<C1[2]>>)>>
Answered == {k \in Parts(cfg) : Said(k) # <<>>}
FirstErr == LET s == SelectSeq(log, LAMBDA e : e.e = "fut" /\ e.r = "err") IN IF s = <<>> THEN <<>> ELSE <<Er(<<s[1].v>>)>>
LastErr == LET s == SelectSeq(log, LAMBDA e : e.e = "fut" /\ e.r = "err") IN <<Er(<<s[Len(s)].v>>)>>
Join == IF FirstErr # <<>> THEN FirstErr ELSE If2(Answered = Parts(cfg), Val([i \in 1 .. cfg.n |-> Said(i - 1)[1].v]))
Want == CASE cfg.k \in Adapters -> One1 [] cfg.k = "join" -> Join [] OTHER -> <<>>
Fixed == cfg.k \in Adapters \cup {"join"}
\* selects: what was yielded against what was answered
First == LET s == SelectSeq(log, LAMBDA e : e.e = "fut") IN s[1]
Oks == SelectSeq(log, LAMBDA e : e.e = "fut" /\ e.r = "ready")
SelOk == \A i \in 1 .. Len(Outs) :
           LET o == Outs[i] IN
           CASE cfg.k = "select_ok" /\ o.r = "val" -> Oks # <<>> /\ o.v[1] = Oks[1].v /\ Range(Tail(o.v)) = Parts(cfg) \ Answered /\ Len(o.v) = cfg.n - Cardinality(Answered) + 1
             [] cfg.k = "select_ok" /\ o.r = "err" -> Oks = <<>> /\ Answered = Parts(cfg) /\ <<o>> = LastErr
             [] cfg.k = "sel1" -> o.v[1] = First.k /\ o.v[2] = First.v /\ o.v[3] = 1 - First.k
             [] OTHER -> TRUE
\* select over a list: every answer comes out once, in the order it was given, at its place in the list handed over
Futs0 == SelectSeq(log, LAMBDA e : e.e = "fut")
ListBefore(i) == IF i = 1 THEN [j \in 1 .. cfg.n |-> j - 1] ELSE SubSeq(Yielded[i - 1].v, 3, Len(Yielded[i - 1].v))
SelList == cfg.k = "sel" => \A i \in 1 .. Len(Yielded) :
             LET o == Yielded[i] IN
             /\ i <= Len(Futs0) /\ o.v[2] = Futs0[i].v /\ (o.r = "item") = (Futs0[i].r = "ready")
             /\ o.v[1] + 1 <= Len(ListBefore(i)) /\ ListBefore(i)[o.v[1] + 1] = Futs0[i].k
             /\ Range(SubSeq(o.v, 3, Len(o.v))) = Range(ListBefore(i)) \ {Futs0[i].k} /\ Len(o.v) = cfg.n - i + 2
\* select!: arms run for exactly the answers given, in that order; complete only when every branch is over
Arms == SelectSeq(log, LAMBDA e : e.e = "arm" /\ e.i >= 0)
Given == SelectSeq(log, LAMBDA e : e.e \in {"src", "fut"})
SelMac == cfg.k = "selm" =>
            /\ \A i \in 1 .. Len(Arms) : \E j \in 1 .. Len(Given) : Given[j].k = Arms[i].i /\ (Given[j].v = Arms[i].v)
            /\ \A i \in 1 .. Len(Given) : Given[i].r # "end" => (quiet => \E j \in 1 .. Len(Arms) : Arms[j].i = Given[i].k /\ Arms[j].v = Given[i].v)
            /\ (\E i \in 1 .. Len(log) : log[i].e = "arm" /\ log[i].i = -1) => \A k \in Parts(cfg) : IF k = 0 THEN Gone(0) ELSE Said(k) # <<>>
            /\ Len(SelectSeq(Arms, LAMBDA a : a.v # 0)) <= Len(SelectSeq(Given, LAMBDA g : g.r # "end"))
Sound == Fixed => IsPrefix(Yielded, Want)
Complete == quiet => CASE Fixed -> Want = <<>> /\ Yielded = <<>>
                       [] cfg.k \in {"select_ok"} -> Oks = <<>> /\ Answered # Parts(cfg)
                       [] cfg.k = "sel1" -> Answered = {}
                       [] cfg.k = "sel" -> Len(Yielded) = Len(Futs0)
                       [] OTHER -> TRUE
\* the right closure, with the right argument, at most once
Seen == cfg.k \in Adapters => /\ Len(Calls) <= 1
                              /\ C1 # <<>> => /\ C1[1] = A0[2]
                                              /\ cfg.k \in {"map_ok", "inspect_ok", "and_then"} => A0[1] = "ready"
                                              /\ cfg.k \in {"map_err", "inspect_err", "or_else", "unwrap_or_else"} => A0[1] = "err"
                                              /\ cfg.k = "map_ok_or_else" => (C1[3] = "f") = (A0[1] = "ready")
\* no future is polled again once it has answered; every live part of a pending join or select holds the waker
Polled == \A k \in Inputs(cfg) : Len(SelectSeq(log, LAMBDA e : e.e = "fut" /\ e.k = k)) <= 1
Watched == quiet /\ cfg.k \in {"join", "select_ok", "sel", "sel1", "selm"} => \A k \in Parts(cfg) : (IF cfg.k = "selm" /\ k = 0 THEN Gone(0) ELSE Said(k) # <<>>) \/ k \in st.pend
=============================================================================
