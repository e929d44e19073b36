------------------------------ MODULE MergeMC ------------------------------
(* The machines of Merge against the meaning of the combinators: order of   *)
(* zipped / chained / flattened / buffered streams, each input's order kept *)
(* by the merging ones, nothing lost when pending, the end exactly when     *)
(* everything is over, limits on how much is under way (C12, C13, C18-C20,  *)
(* C23).                                                                    *)
EXTENDS SeqMC, Merge
CONSTANT Kinds
Tries == {"tflatten", "tfstream", "tfuno", "tbuffered", "tbufun", "tfec", "tready_chunks", "tunfold"}
OfFuts == {"buffered", "tbuffered", "bufun", "tbufun", "fec", "tfec", "ordered", "unordered"}
Inner == Flat \cup {"funo", "fmuno", "tfuno"}
Lim == {"funo", "fmuno", "tfuno", "bufun", "tbufun", "buffered", "tbuffered", "fec", "tfec"}
Ns(k) == CASE k \in {"zip", "chain"} -> {2} [] k = "take_until" -> {1} [] k \in {"select", "strategy"} -> {2} [] k \in {"select_all", "select_any"} -> {0, 3} \ (IF k = "select_any" THEN {0} ELSE {})
           [] k \in Lim -> {1, 2, 3} [] k \in {"ready_chunks", "tready_chunks"} -> {1, 2} [] OTHER -> {0}
AllCfgs == {[k |-> x[1], n |-> x[2], init |-> 7, fused |-> FALSE] : x \in {y \in Kinds \X (0 .. 3) : y[2] \in Ns(y[1])}}
PeekOps(c, s, g) == IF c.k = "peek" THEN {"next", "peek", "nif"} ELSE {""}
FutLike(c, k) == CASE c.k = "take_until" -> k = 1 [] c.k \in OfFuts -> c.k \in {"ordered", "unordered"} \/ k # 0 [] c.k \in {"fstream", "tfstream"} -> k = 0 [] c.k \in {"unfold", "tunfold"} -> TRUE [] OTHER -> FALSE
Who(c, s) == CASE c.k \in {"zip", "chain", "take_until"} -> {0, 1} [] c.k \in Rr -> 0 .. (c.n - 1) [] c.k \in {"ordered", "unordered", "sall"} -> s.set [] c.k = "cycle" -> {s.fid} \ {-1}
               [] OTHER -> {0} \cup s.set \cup ({s.fid} \ {-1})
\* fresh numbers: inputs made on the way below 40, values above 100
NewK == Fresh + 4
Makes(c, k) == k = 0 /\ c.k \in {"flatten", "tflatten", "fstream", "tfstream", "funo", "tfuno", "buffered", "tbuffered", "bufun", "tbufun"}
Good(c, k) == IF Makes(c, k) THEN NewK ELSE IF c.k \in {"unfold", "tunfold"} THEN 100 + 2 * Fresh ELSE 100 + Fresh
Speak(c, k) ==
  IF FutLike(c, k) THEN {Fut(k, "pend", 0), Fut(k, "ready", Good(c, k))} \cup If(c.k \in Tries, {Fut(k, "err", 100 + Fresh)}) \cup If(c.k \in {"unfold", "tunfold"}, {Fut(k, "ready", 0)})
  ELSE {Src(k, "pend", 0), Src(k, "end", 0), Src(k, "item", Good(c, k))} \cup If(c.k \in Tries /\ ~(c.k = "tfec"), {Src(k, "err", 100 + Fresh)})
Closures(c, s) ==
  CASE c.k \in {"unfold", "tunfold"} -> If(s.stg = "call", {Call("f", s.t, NewK)})
    [] c.k \in {"flat_map", "fmuno", "fec", "tfec"} -> If(s.stg = "call", {Call("f", <<s.cur>>, NewK)})
    [] c.k = "strategy" -> {Call("f", <<>>, 0), Call("f", <<>>, 1)}
    [] c.k = "peek" -> If(s.s # <<>>, {Call("f", s.s, 0), Call("f", s.s, 1)})
    [] OTHER -> {}
Others(c, s) ==
  CASE c.k = "ordered" -> {[e |-> "push", r |-> "", k |-> NewK, front |-> f] : f \in If(Cardinality(s.set) < 3, {TRUE, FALSE})}
    [] c.k \in {"unordered", "sall"} -> If(Cardinality(s.set) < 3, {[e |-> "push", r |-> "", k |-> NewK, front |-> FALSE]})
    [] c.k = "cycle" -> If(s.fid = -1, {[e |-> "clone", r |-> "", k |-> NewK]})
    [] OTHER -> {}
Rs(c, s) ==
  (IF c.k \in {"fec", "tfec"} THEN {x \in Owed(s) : x.r # "none"} ELSE Owed(s)) \cup (CASE c.k \in {"ready_chunks", "tready_chunks"} -> If(s.s # <<>>, {RetE("item", s.s)})
    [] c.k = "peek" -> {RetE("peek", s.s), RetE("peek", <<0>>), RetE("nif", <<0>>), RetE("item", s.s)}
    [] c.k = "poll_imm" -> {RetE("item", <<0>>)}
    [] c.k \in OfFuts -> {RetE(IF s.s[i][2] = "ready" THEN "item" ELSE "err", <<s.s[i][3]>>) : i \in 1 .. Len(s.s)}
    [] OTHER -> {})
MEnv(c, s, g) == UNION {Speak(c, k) : k \in Who(c, s)} \cup Closures(c, s) \cup Others(c, s) \cup Rs(c, s)
\* (the fair mergers refuse a poll order only when it comes to returning)
MAble == cfg.k \in Rr \cup {"funo", "fmuno", "tfuno", "sall"} \/ (cfg.k = "tfec" /\ Yielded # <<>>) \/ Able
\* What the log says. Of(k): what input k answered, as outputs.
Ans(e) == Out(IF e.r = "err" THEN "err" ELSE "item", <<e.v>>)
OutOf(k) == LET s == SelectSeq(Said(k), LAMBDA e : e.r # "end") IN [i \in 1 .. Len(s) |-> Ans(s[i])]
Vs(k) == LET s == SelectSeq(Said(k), LAMBDA e : e.r \in {"item", "ready"}) IN [i \in 1 .. Len(s) |-> s[i].v]
Ended(k) == Gone(k)
Errs(k) == SelectSeq(OutOf(k), LAMBDA x : x.r = "err")
\* inputs made on the way, in the order made (source items, closure answers, pushes, clones)
Made == LET s == SelectSeq(log, LAMBDA e : CASE e.e \in {"src", "fut"} -> Makes(cfg, e.k) /\ e.r \in {"item", "ready"} [] e.e = "call" -> cfg.k \in {"flat_map", "fmuno", "fec", "tfec", "unfold", "tunfold"} [] OTHER -> e.e \in {"push", "clone"})
        IN [i \in 1 .. Len(s) |-> IF s[i].e \in {"push", "clone"} THEN s[i].k ELSE s[i].v]
Over(k) == Ended(k) \/ (\E i \in 1 .. Len(log) : log[i].e = "fut" /\ log[i].k = k)
\* flattening: everything an inner stream said, then the next; errors of the source in between
FlatWant == ConcatAll([i \in 1 .. Len(log) |-> IF log[i].e \in {"src", "fut"} /\ log[i].r # "end" /\ ~(log[i].k = 0 /\ log[i].r # "err") THEN <<Ans(log[i])>> ELSE <<>>])
Sequential ==  \* an inner stream is over before the next one is asked for
  \A i, j \in 1 .. Len(log) : i < j /\ log[i].e = "src" /\ log[i].k # 0 /\ log[j].e \in {"src", "fut"} /\ log[j].k # log[i].k => \E m \in i .. (j - 1) : log[m].e = "src" /\ log[m].k = log[i].k /\ log[m].r = "end"
Pairs == LET a == Vs(0) b == Vs(1) IN [i \in 1 .. (IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)) |-> It(<<a[i], b[i]>>)]
\* pushed to the front or back, in the order to come out
Fronted(acc, e) == IF e.e = "push" THEN (IF e.front THEN <<e.k>> \o acc ELSE Append(acc, e.k)) ELSE IF e.e = "ret" /\ e.r = "item" THEN Tail(acc) ELSE acc
\* values of buffered results, in order, as far as every earlier one is there
Res(k) == OutOf(k)
Lead(ks) == LET n == LeadLen(ks, LAMBDA k : Over(k)) IN ConcatAll([i \in 1 .. n |-> Res(ks[i])])
Want ==
  CASE cfg.k = "zip" -> Pairs
    [] cfg.k = "chain" -> OutOf(0) \o OutOf(1)
    [] cfg.k = "take_until" -> OutOf(0)
    [] cfg.k \in Flat -> FlatWant
    [] cfg.k \in {"unfold", "tunfold"} -> SelectSeq(FlatWant, LAMBDA x : x.v # <<0>>)
    [] cfg.k \in {"poll_imm", "peek"} -> OutOf(0)
    [] cfg.k = "cycle" -> ConcatAll(<<OutOf(0)>> \o [i \in 1 .. Len(Made) |-> OutOf(Made[i])])
    [] cfg.k = "buffered" -> Lead(Made)
    [] OTHER -> <<>>
Exact == {"zip", "chain", "take_until", "poll_imm", "peek", "cycle", "buffered", "unfold", "tunfold"} \cup Flat
Yd == SelectSeq(Yielded, LAMBDA x : x.r \in {"item", "err", "val"} /\ x.v # <<0>>)
Came(x) == \E i \in 1 .. Len(Yielded) : Yielded[i] = x
Mixed == Rr \cup {"funo", "fmuno", "tfuno", "sall"}
Origins == IF cfg.k \in Rr THEN 0 .. (cfg.n - 1) ELSE Range(Made)
SubOf(k) == SelectSeq(Yd, LAMBDA x : \E i \in 1 .. Len(OutOf(k)) : OutOf(k)[i] = x)
Sound ==
  CASE cfg.k \in Exact -> IsPrefix(Yd, Want)
    [] cfg.k \in Mixed -> /\ \A k \in Origins : IsPrefix(SubOf(k), OutOf(k))
                          /\ \A i \in 1 .. Len(Yd) : \E k \in Origins \cup {0} : \E j \in 1 .. Len(OutOf(k)) : OutOf(k)[j] = Yd[i]
                          /\ \A i, j \in 1 .. Len(Yd) : i # j => Yd[i] # Yd[j]
    [] cfg.k \in {"tbuffered"} -> LET ok == SelectSeq(Yd, LAMBDA x : ~\E j \in 1 .. Len(Errs(0)) : Errs(0)[j] = x) IN IsPrefix(ok, Lead(Made))
    [] cfg.k \in {"bufun", "tbufun", "unordered"} ->
         /\ \A i \in 1 .. Len(Yd) : \E k \in Range(Made) \cup {0} : \E j \in 1 .. Len(OutOf(k)) : OutOf(k)[j] = Yd[i]
         /\ \A i, j \in 1 .. Len(Yd) : i # j => Yd[i] # Yd[j]
    [] cfg.k \in {"ready_chunks", "tready_chunks"} ->
         /\ IsPrefix(ConcatAll([i \in 1 .. Len(Yd) |-> Yd[i].v]), [i \in 1 .. Len(OutOf(0)) |-> OutOf(0)[i].v[1]])
         /\ \A i \in 1 .. Len(Yd) : Yd[i].v # <<>> /\ Len(Yd[i].v) <= cfg.n + (IF Yd[i].r = "err" THEN 1 ELSE 0)
    [] cfg.k \in {"fec", "tfec"} -> \A i \in 1 .. Len(Yd) : IF Yd[i].r = "err" THEN \E k \in Range(Made) : Errs(k) # <<>> /\ Errs(k)[1] = Yd[i]
                                                          ELSE Ended(0) /\ (\A k \in Range(Made) : Over(k)) /\ Len(Made) = Len(Vs(0))
    [] OTHER -> TRUE
\* the order FuturesOrdered promises: at every output the front of the deque
RECURSIVE Deque(_, _)
Deque(i, d) == IF i > Len(log) THEN TRUE
               ELSE IF log[i].e = "ret" /\ log[i].r = "item" THEN d # <<>> /\ (\E j \in 1 .. i : log[j].e = "fut" /\ log[j].k = Head(d) /\ log[j].v = log[i].v[1]) /\ Deque(i + 1, Tail(d))
               ELSE Deque(i + 1, Fronted(d, log[i]))
InOrder == cfg.k = "ordered" => Deque(1, <<>>)
\* pending: nothing that could be given is held back
Complete == quiet =>
  CASE cfg.k \in Exact -> Yd = Want
    [] cfg.k \in Mixed -> \A k \in Origins : SubOf(k) = OutOf(k)
    [] cfg.k = "tbuffered" -> \A j \in 1 .. Len(Lead(Made)) : Came(Lead(Made)[j])
    [] cfg.k \in {"bufun", "tbufun", "unordered"} -> \A k \in Range(Made) : \A j \in 1 .. Len(OutOf(k)) : Came(OutOf(k)[j])
    [] cfg.k \in {"ready_chunks", "tready_chunks"} -> ConcatAll([i \in 1 .. Len(Yd) |-> Yd[i].v]) = [i \in 1 .. Len(OutOf(0)) |-> OutOf(0)[i].v[1]]
    [] cfg.k \in {"fec", "tfec"} -> ~(Ended(0) /\ \A k \in Range(Made) : Over(k)) /\ \A k \in Range(Made) : Errs(k) = <<>>
    [] OTHER -> TRUE
\* the end: exactly when nothing more can come
Finished ==
  CASE cfg.k = "zip" -> Ended(0) \/ Ended(1)
    [] cfg.k = "chain" -> Ended(0) /\ Ended(1)
    [] cfg.k = "take_until" -> Ended(0) \/ Over(1)
    [] cfg.k \in {"ready_chunks", "tready_chunks", "peek", "poll_imm"} -> Ended(0)
    [] cfg.k = "cycle" -> \E i \in 1 .. Len(Made) : Ended(Made[i]) /\ OutOf(Made[i]) = <<>>
    [] cfg.k \in {"unfold", "tunfold"} -> \E i \in 1 .. Len(log) : log[i].e = "fut" /\ (log[i].v = 0 \/ log[i].r = "err")
    [] cfg.k = "fstream" -> \E k \in Range(Made) : Ended(k)
    [] cfg.k = "tfstream" -> (\E k \in Range(Made) : Ended(k)) \/ Errs(0) # <<>>
    [] cfg.k \in Flat -> Ended(0) /\ \A k \in Range(Made) : Ended(k)
    [] cfg.k \in Rr -> \A k \in Origins : Ended(k)
    [] cfg.k \in {"ordered", "unordered", "sall"} -> \A k \in Range(Made) : Over(k)
    [] OTHER -> Ended(0) /\ \A k \in Range(Made) : Over(k)
NoneAt == \E i \in 1 .. Len(Outs) : Outs[i].r = "none"
EndRight == (NoneAt => Finished) /\ (quiet /\ cfg.k \notin {"ordered", "unordered", "sall", "cycle"} => ~Finished)
\* limits: how many futures / sub-streams are under way, how many results are kept for their turn
Bound ==
  CASE cfg.k \in {"buffered", "tbuffered"} -> Cardinality({k \in Range(Made) : ~\E j \in 1 .. Len(OutOf(k)) : Came(OutOf(k)[j])}) <= cfg.n
    [] cfg.k \in Lim -> Cardinality({k \in Range(Made) : ~Over(k)}) <= cfg.n
    [] OTHER -> TRUE
Lazy == /\ (cfg.k = "chain" => \A i \in 1 .. Len(log) : log[i].e = "src" /\ log[i].k = 1 => \E j \in 1 .. i : log[j].e = "src" /\ log[j].k = 0 /\ log[j].r = "end")
        /\ (cfg.k = "take_until" => \A i, j \in 1 .. Len(log) : i < j /\ log[i].e = "fut" => log[j].e # "src")
        /\ (cfg.k = "zip" => LET a == Len(Vs(0)) b == Len(Vs(1)) IN a - b \in {-1, 0, 1})
        /\ (cfg.k \in Flat => Sequential)
\* state threading of unfold; peeking shows the item that comes next, next_if only gives what the predicate accepted
Threads == cfg.k \in {"unfold", "tunfold"} => LET fs == SelectSeq(log, LAMBDA e : e.e = "fut") IN \A i \in 1 .. Len(Calls) : Calls[i].a = (IF i = 1 THEN <<7>> ELSE <<fs[i - 1].v + 1>>)
Peeks == cfg.k = "peek" => \A i \in 1 .. Len(log) : log[i].e = "ret" =>
  LET before == SelectSeq(SubSeq(log, 1, i - 1), LAMBDA e : e.e = "ret" /\ e.r = "item")
      seen == SelectSeq(SubSeq(log, 1, i), LAMBDA e : e.e = "src" /\ e.r = "item") IN
  /\ log[i].r = "peek" => log[i].v = (IF Len(seen) > Len(before) THEN <<seen[Len(before) + 1].v>> ELSE <<0>>)
  /\ (log[i].r \in {"item", "nif"} /\ log[i].op = "nif") => (IF log[i].r = "item" THEN log[i - 1].e = "call" /\ log[i - 1].v = 1 ELSE Len(seen) = Len(before) \/ (log[i - 1].e = "call" /\ log[i - 1].v = 0))
=============================================================================
