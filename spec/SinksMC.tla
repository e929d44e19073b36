------------------------------ MODULE SinksMC ------------------------------
(* The machines of Sinks against the meaning of sink adapters (C24): every  *)
(* item reaches every sink once and in order, through a slot the sink has   *)
(* offered; flushed and closed mean that everything has arrived before; the *)
(* buffer keeps to its bound; errors surface.                               *)
EXTENDS SeqMC, Sinks
CONSTANT Kinds
Futs == {"feed", "send", "flush", "close", "send_all", "forward"}
Ns(k) == CASE k = "buffer" -> {1, 2} [] k = "id" -> {1, 2} [] k \in {"unfold", "drain"} -> {0} [] OTHER -> {1}
AllCfgs == {[k |-> x[1], n |-> x[2], init |-> 7, fused |-> FALSE] : x \in {y \in Kinds \X (0 .. 2) : y[2] \in Ns(y[1])}}
\* the contract of the owner: start_send only right after poll_ready was answered; nothing after close began
LastRet(g) == LET s == SelectSeq(g, LAMBDA e : e.e = "ret") IN IF s = <<>> THEN "" ELSE s[Len(s)].op
KOps(c, s, g) == IF g # <<>> /\ g[Len(g)].r = "err" THEN {} ELSE IF c.k \notin Futs /\ s.op = "close" THEN {"close"} ELSE IF c.k \in Futs THEN {""} ELSE IF LastRet(g) = "ready" THEN {"send", "ready", "flush", "close"} ELSE {"ready", "flush", "close"}
Snks(c, s) == UNION {{[e |-> "snk", k |-> k, op |-> o, r |-> r, v |-> v, x |-> 500 + Fresh] :
                       r \in {"ok", "err"} \cup (IF o = "send" THEN {} ELSE {"pend"}), v \in IF o = "send" THEN Range(Owe(s, k)) ELSE {0}} : k \in s.sk, o \in {"ready", "send", "flush", "close"}}
\* a sink that said ready / flushed is not asked again before something is sent (it may be, but that changes nothing)
Useful(s) == {e \in Snks(cfg, s) : ~(e.op = "ready" /\ e.k \in s.tok) /\ ~(e.op = "flush" /\ e.k \in s.fl)}
NewK == Fresh + 4
Items == SelectSeq(log, LAMBDA e : e.e = "item")
SendDone(g) == g # <<>> /\ g[Len(g)].e # "ret"     \* within a start_send: has the item been handed over already?
KEnv(c, s, g) ==
  Useful(s)
  \cup (CASE c.k \in Fwd -> {Src(1, "pend", 0), Src(1, "end", 0), Src(1, "item", 100 + Fresh)} \cup If(c.k = "forward", {Src(1, "err", 400 + Fresh)})
          [] c.k = "flatten" -> If(s.sk = {}, {Fut(0, "pend", 0), Fut(0, "ready", NewK), Fut(0, "err", 400 + Fresh)})
          [] c.k = "wfm" -> If(s.stg = "fut", {Src(s.fid, "pend", 0), Src(s.fid, "end", 0), Src(s.fid, "item", 300 + Fresh), Src(s.fid, "err", 400 + Fresh)})
          [] c.k \in {"with", "unfold"} -> If(s.stg = "fut", {Fut(s.fid, "pend", 0), Fut(s.fid, "ready", 300 + Fresh), Fut(s.fid, "err", 400 + Fresh)})
          [] OTHER -> {})
  \cup If(s.stg = "call", {Call("f", IF c.k = "unfold" THEN Append(s.acc, s.cur) ELSE <<s.cur>>, IF c.k = "map_err" THEN 600 + Fresh ELSE NewK)})
  \cup If(s.op = "send" /\ ~SendDone(g), {[e |-> "item", r |-> "", v |-> 100 + Fresh]})
  \cup If(~(s.op = "send" /\ ~SendDone(g)), {RetE("ok", <<>>), RetE("val", <<>>)} \cup {x \in Owed(s) : x.r # "none"})
\* what should arrive: the items given, what the closure's futures / streams made of them, what the source said
Given == CASE cfg.k \in {"feed", "send"} -> <<7>>
           [] cfg.k \in Fwd -> LET s == SelectSeq(log, LAMBDA e : e.e = "src" /\ e.r = "item") IN [i \in 1 .. Len(s) |-> s[i].v]
           [] cfg.k \in {"with", "wfm"} -> LET s == SelectSeq(log, LAMBDA e : e.e \in {"src", "fut"} /\ e.r \in {"item", "ready"}) IN [i \in 1 .. Len(s) |-> s[i].v]
           [] cfg.k \in {"unfold", "drain"} -> <<>>
           [] OTHER -> [i \in 1 .. Len(Items) |-> Items[i].v]
At(k) == SelectSeq(log, LAMBDA e : e.e = "snk" /\ e.k = k)
Got(k) == LET s == SelectSeq(At(k), LAMBDA e : e.op = "send") IN [i \in 1 .. Len(s) |-> s[i].v]
Arrived == \A k \in st.sk : IsPrefix(Got(k), Given)
\* every item taken has been turned into what its closure answered, and that future / stream is over
Worked == cfg.k \in {"with", "wfm", "unfold"} => /\ Len(Calls) = Len(Items)
                                                 /\ \A i \in 1 .. Len(Calls) : Calls[i].a[Len(Calls[i].a)] = Items[i].v
                                                 /\ \A i \in 1 .. Len(Calls) : \E j \in 1 .. Len(log) : log[j].e \in {"src", "fut"} /\ log[j].k = Calls[i].v /\ (log[j].e = "fut" \/ log[j].r = "end")
Slots == \A k \in st.sk : \A i \in 1 .. Len(At(k)) : At(k)[i].op = "send" => i > 1 /\ At(k)[i - 1].op \in {"ready", "flush"} /\ \E j \in 1 .. (i - 1) : At(k)[j].op = "ready" /\ At(k)[j].r = "ok" /\ \A m \in (j + 1) .. (i - 1) : At(k)[m].op # "send"
NoLate == \A k \in st.sk : \A i, j \in 1 .. Len(At(k)) : i < j /\ At(k)[i].op = "close" => At(k)[j].op # "send"
\* a sink is closed only when it has everything
Whole == \A k \in st.sk : (\E i \in 1 .. Len(At(k)) : At(k)[i].op = "close") => Got(k) = Given /\ Worked
LastIs(k, op) == LET s == SelectSeq(At(k), LAMBDA e : e.op \in {"send", op}) IN s # <<>> /\ s[Len(s)].op = op /\ s[Len(s)].r = "ok"
All(op) == \A k \in st.sk : Got(k) = Given /\ LastIs(k, op)
Last == log[Len(log)]
Truth == (log # <<>> /\ Last.e = "ret" /\ Last.r \in {"ok", "val"}) =>
  CASE cfg.k \in {"send", "send_all"} -> All("flush") /\ (cfg.k = "send_all" => Gone(1)) [] cfg.k = "feed" -> Got(0) = Given [] cfg.k = "flush" -> LastIs(0, "flush") [] cfg.k = "close" -> LastIs(0, "close") [] cfg.k = "forward" -> All("close") /\ Gone(1)
    [] Last.op = "flush" -> Worked /\ All("flush")
    [] Last.op = "close" -> Worked /\ All("close")
    [] Last.op = "ready" -> IF cfg.k = "buffer" THEN Len(Given) - Len(Got(0)) < cfg.n ELSE (Worked /\ \A k \in st.sk : Got(k) = Given)
    [] OTHER -> TRUE
Bounded == ~pol /\ ~over /\ (log # <<>> => Last.r # "err") => \A k \in st.sk : Len(Given) - Len(Got(k)) <= (IF cfg.k = "buffer" THEN cfg.n ELSE IF cfg.k \in Futs \cup {"with", "wfm"} THEN 1 ELSE 0)
\* an error of a sink, source or future is what is reported, and nothing happens in between (except the closure that converts it)
Errors == \A i \in 1 .. (Len(log) - 1) : log[i].r = "err" /\ log[i].e \in {"snk", "src", "fut"} =>
  IF cfg.k = "map_err" THEN log[i + 1].e = "call" /\ log[i + 1].a = <<log[i].x>> /\ (i + 1 < Len(log) => log[i + 2].e = "ret" /\ log[i + 2].r = "err" /\ log[i + 2].v = <<log[i + 1].v>>)
  ELSE log[i + 1].e = "ret" /\ log[i + 1].r = "err" /\ log[i + 1].v = <<IF log[i].e = "snk" THEN log[i].x ELSE log[i].v>>
Threads == cfg.k = "unfold" => LET fs == SelectSeq(log, LAMBDA e : e.e = "fut" /\ e.r = "ready") IN \A i \in 1 .. Len(Calls) : Calls[i].a[1] = (IF i = 1 THEN 7 ELSE fs[i - 1].v)
\* never stuck for good: unless it has failed or is done, something is possible
Errored == \E i \in 1 .. Len(log) : log[i].e = "ret" /\ log[i].r = "err"
KAble == Errored \/ Able
=============================================================================
