------------------------------- MODULE IoMC --------------------------------
(* The machines of Io against the meaning of readers, writers and copying   *)
(* (C25, C26), a function of the log alone: what the user gets is the front *)
(* of what was taken from the source, what the writer gets is the front of  *)
(* what the user handed over; the end, a flush and a close mean what they   *)
(* say; limits and buffer sizes hold; errors surface at once.               *)
EXTENDS SeqMC, Io
CONSTANT Kinds
Ns(k) == CASE k \in {"bufreader", "takebuf", "chunks", "bufwriter", "linewriter", "take", "f_exact", "f_read"} -> {2} [] OTHER -> {0}
AllCfgs == {[k |-> k, n |-> n, d |-> IF k = "takebuf" THEN 2 ELSE IF k = "f_until" THEN 10 ELSE 0, fused |-> FALSE] : k \in Kinds, n \in {0, 2}}
MCfgs == {c \in AllCfgs : c.n \in Ns(c.k)}
Texty == {"f_until", "f_line", "lines", "linewriter", "f_str"}
Byte(c, i) == IF c.k \in Texty THEN {97, NL} ELSE {100 + 10 * Fresh + i}
Bytes(c, n) == IF n = 0 THEN {<<>>} ELSE IF n = 1 THEN {<<b>> : b \in Byte(c, 1)} ELSE {<<x[1], x[2]>> : x \in Byte(c, 1) \X Byte(c, 2)}
\* --- what the log says -------------------------------------------------------------------------
Ios(op) == SelectSeq(log, LAMBDA e : e.e = "io" /\ e.op = op)
Cat(s) == ConcatAll([i \in 1 .. Len(s) |-> s[i].v])
Taken == Cat(SelectSeq(log, LAMBDA e : e.e = "io" /\ e.r = "ok" /\ e.op \in {"read", "consume", "next"}))
Taken0 == Cat(SelectSeq(log, LAMBDA e : e.e = "io" /\ e.r = "ok" /\ e.k = 0 /\ e.op \in {"read", "consume", "next"}))
Written == Cat(SelectSeq(log, LAMBDA e : e.e = "io" /\ e.r = "ok" /\ e.op = "write"))
Shown == LET f == {i \in 1 .. Len(log) : log[i].e = "io" /\ log[i].op = "fill" /\ log[i].r = "ok"} IN
         IF f = {} THEN <<>> ELSE LET m == CHOOSE i \in f : \A j \in f : j <= i
                                      u == Cat(SelectSeq(SubSeq(log, m + 1, Len(log)), LAMBDA e : e.e = "io" /\ e.op = "consume")) IN Drop(log[m].v, Len(u))
ArgAt(i) == LET s == {j \in 1 .. i : log[j].e = "arg"} IN log[CHOOSE j \in s : \A m \in s : m <= j]
Delivered == ConcatAll([i \in 1 .. Len(log) |-> IF log[i].e # "ret" \/ log[i].r # "ok" THEN <<>> ELSE IF log[i].op = "read" THEN log[i].v ELSE IF log[i].op = "consume" THEN ArgAt(i).v ELSE <<>>])
Accepted == ConcatAll([i \in 1 .. Len(log) |-> IF log[i].e = "ret" /\ log[i].r = "ok" /\ log[i].op = "write" THEN Take(ArgAt(i).v, log[i].v[1])
                                               ELSE IF log[i].e = "ret" /\ log[i].r = "ok" /\ log[i].op = "send" THEN ArgAt(i).v ELSE <<>>])
LastE == IF log = <<>> THEN [e |-> "none", r |-> "", op |-> ""] ELSE log[Len(log)]
\* --- what may happen ---------------------------------------------------------------------------
Arg(op, n, v) == [e |-> "arg", r |-> "", op |-> op, n |-> n, v |-> v, wh |-> 0, o |-> 0]
IoE(k, op, len, r, v, x) == [e |-> "io", k |-> k, op |-> op, len |-> len, r |-> r, v |-> v, x |-> x]
Parts(q) == {Part(q, a, b) : a \in 0 .. Len(q), b \in 0 .. Len(q)}
Closing == \E i \in 1 .. Len(log) : log[i].e = "arg" /\ log[i].op = "close"
Args(c, s) ==
  CASE c.k \in Readers -> {Arg("read", n, <<>>) : n \in 1 .. 2}
                          \cup If(c.k \in {"bufreader", "takebuf"}, {Arg("fill", 0, <<>>)})
                          \cup If(LastE.e = "ret" /\ LastE.op = "fill" /\ LastE.r = "ok", {Arg("consume", n, Take(LastE.v, n)) : n \in 1 .. Len(LastE.v)})
    [] c.k = "intosink" -> IF Closing THEN {Arg("close", 0, <<>>)} ELSE {Arg(o, 0, <<>>) : o \in {"ready", "flush", "close"}}
                           \cup If(LastE.e = "ret" /\ LastE.op = "ready" /\ LastE.r = "ok", {Arg("send", 0, v) : v \in Bytes(c, 2)})
    [] c.k \in Writers -> IF Closing THEN {Arg("close", 0, <<>>)} ELSE {Arg("flush", 0, <<>>), Arg("close", 0, <<>>)} \cup UNION {{Arg("write", n, v) : v \in Bytes(c, n)} : n \in 1 .. 2}
    [] c.k \in FWrite /\ s.pre = <<>> -> {[e |-> "prefix", r |-> "", v |-> <<7, 8, 9>>]}
    [] OTHER -> {Arg("fut", 0, <<>>)}
Srcs(c) == IF c.k = "chain" THEN {0, 1} ELSE {0}
\* a source of lines that ended stays at its end
FillEnd == \E i \in 1 .. Len(log) : log[i].e = "io" /\ log[i].op = "fill" /\ log[i].r = "ok" /\ log[i].v = <<>>
Filling == {"takebuf", "f_until", "f_line", "lines", "f_fill", "copybuf"}
Sources(c, s) ==
  IF c.k \in Filling
  THEN {IoE(0, "fill", 0, r, <<>>, 900 + Fresh) : r \in {"pend", "err"}}
       \cup (IF s.t # <<>> THEN {IoE(0, "fill", 0, "ok", s.t, 0)} ELSE UNION {{IoE(0, "fill", 0, "ok", v, 0) : v \in Bytes(c, n)} : n \in IF c.k = "lines" /\ FillEnd THEN {0} ELSE 0 .. 2})
       \cup {IoE(0, "consume", n, "ok", Take(s.t, n), 0) : n \in 1 .. Len(s.t)}
  ELSE UNION {{IoE(k, "read", 2, r, <<>>, 900 + Fresh) : r \in {"pend", "err"}} \cup UNION {{IoE(k, "read", l, "ok", v, 0) : v \in UNION {Bytes(c, n) : n \in 0 .. l}} : l \in 1 .. 2} : k \in Srcs(c)}
Outlets(c, s) ==
  UNION {{IoE(Wk(c), o, 1, r, <<>>, 900 + Fresh) : r \in {"pend", "err"}} : o \in {"write", "flush", "close"}}
  \cup {IoE(Wk(c), o, 0, "ok", <<>>, 0) : o \in {"flush", "close"} \ (IF s.fl THEN {"flush"} ELSE {})}
  \cup {IoE(Wk(c), "write", l, "ok", Part(Due(c, s), a, a + b), 0) : l \in 1 .. Len(Due(c, s)), a \in 0 .. 1, b \in 0 .. Len(Due(c, s))}
Errs(s) == {RetE("err", <<900 + i>>) : i \in {Len(log)}} \cup {RetE("err", <<-1>>), RetE("err", <<-2>>)}
Rts(c, s) ==
  {RetE("pend", <<>>)} \cup Errs(s)
  \cup CASE c.k \in Readers -> {RetE("ok", v) : v \in Parts(Taken \o Shown)}
         [] c.k \in Writers -> IF s.op = "write" THEN {RetE("ok", <<k>>) : k \in 0 .. 2} ELSE {RetE("ok", <<>>), RetE("val", <<>>)}
         [] c.k = "lines" -> {RetE("none", <<>>)} \cup {RetE("item", v) : v \in Parts(Taken)}
         [] c.k \in FRead -> {RetE("val", <<h>> \o v) : h \in 0 .. Len(Taken) + 1, v \in Parts(Taken \o Shown)} \cup {RetE("err", <<900 + Len(log)>> \o v) : v \in Parts(Taken)}
         [] c.k \in FWrite -> {RetE("val", <<h>>) : h \in 0 .. 3}
         [] OTHER -> {RetE("val", <<h>>) : h \in 0 .. Len(Written) + 1}
IoEnv(c, s, g) ==
  IF s.op = "io" THEN Args(c, s)
  ELSE (IF c.k \in Readers \cup FRead \cup Copiers THEN Sources(c, s) ELSE {}) \cup (IF c.k \in Writers \cup FWrite \cup Copiers THEN Outlets(c, s) ELSE {}) \cup Rts(c, s)
IoOps(c, s, g) == {"io"}
\* --- meaning -----------------------------------------------------------------------------------
Said0(k, op) == \E i \in 1 .. Len(log) : log[i].e = "io" /\ log[i].k = k /\ log[i].op = op /\ log[i].r = "ok" /\ log[i].v = <<>>
Ended(k) == Said0(k, "read") \/ Said0(k, "fill")
InOrder == cfg.k \in Readers => IsPrefix(Delivered, Taken) /\ (LastE.e = "ret" /\ LastE.op = "fill" /\ LastE.r = "ok" => IsPrefix(Delivered \o LastE.v, Taken \o Shown))
Held == cfg.k \in Readers /\ ~pol => Len(Taken) - Len(Delivered) <= Cap(cfg)
Limited == IsTake(cfg) => /\ Len(Delivered) <= 2
                          /\ LastE.e = "ret" /\ LastE.op = "fill" /\ LastE.r = "ok" => Len(Delivered) + Len(LastE.v) <= 2
EndTrue == cfg.k \in Readers /\ LastE.e = "ret" /\ LastE.r = "ok" /\ LastE.op \in {"read", "fill"} /\ LastE.v = <<>> =>
           \/ IsTake(cfg) /\ Len(Delivered) = 2
           \/ Delivered = Taken /\ Shown = <<>> /\ Ended(IF cfg.k = "chain" THEN 1 ELSE 0)
Fits == LastE.e = "ret" /\ LastE.op = "read" /\ LastE.r = "ok" => Len(LastE.v) <= ArgAt(Len(log)).n
ChainOrder == cfg.k = "chain" => \A i, j \in 1 .. Len(log) : i < j /\ log[i].e = "io" /\ log[j].e = "io" /\ log[i].k = 1 => log[j].k = 1
Argument == IF LastE.e # "ret" /\ \E i \in 1 .. Len(log) : log[i].e = "arg" THEN IF LET a == ArgAt(Len(log)) IN a.op \in {"write", "send"} THEN ArgAt(Len(log)).v ELSE <<>> ELSE <<>>
OutOrder == cfg.k \in Writers => IsPrefix(Written, Accepted \o (IF pol THEN Argument ELSE <<>>))
SinceWrite(op) == LET s == SelectSeq(log, LAMBDA e : e.e = "io" /\ ((e.op = "write" /\ e.r = "ok") \/ e.op = op) /\ e.r = "ok") IN s # <<>> /\ s[Len(s)].op = op
Through == cfg.k \in Writers /\ LastE.e = "ret" =>
  CASE LastE.op = "flush" /\ LastE.r = "ok" -> Written = Accepted /\ SinceWrite("flush")
    [] LastE.op = "close" /\ LastE.r = "val" -> Written = Accepted /\ SinceWrite("close")
    [] LastE.op = "ready" /\ LastE.r = "ok" -> Written = Accepted
    [] OTHER -> TRUE
Room == cfg.k \in {"bufwriter", "linewriter"} /\ ~pol => Len(Accepted) - Len(Written) <= 2
Progresses == cfg.k \in Writers /\ LastE.e = "ret" /\ LastE.op = "write" /\ LastE.r = "ok" /\ LastE.v = <<0>> => \E i \in 1 .. Len(log) : log[i].e = "io" /\ log[i].op = "write" /\ log[i].r = "ok" /\ log[i].v = <<>>
NothingAfterClose == \A i, j \in 1 .. Len(log) : i < j /\ log[i].e = "io" /\ log[i].op = "close" /\ log[j].e = "io" => log[j].op # "write"
Errors == \A i \in 1 .. Len(log) : log[i].e = "io" /\ log[i].r = "err" =>
  LET r == {j \in (i + 1) .. Len(log) : log[j].e = "ret"} IN
  IF r = {} THEN \A j \in (i + 1) .. Len(log) : log[j].e = "io" /\ log[j].op = "consume"
  ELSE LET m == CHOOSE j \in r : \A l \in r : j <= l IN log[m].r = "err" /\ log[m].v[1] = log[i].x
Finished == LastE.e = "ret" /\ LastE.r = "val"
Whole ==
  Finished => CASE cfg.k = "f_exact" -> Tail(LastE.v) = Taken /\ Len(Taken) = 2
            [] cfg.k = "f_read" -> Tail(LastE.v) = Taken /\ LastE.v[1] = Len(Taken) /\ Len(Taken) <= 2 /\ (Taken = <<>> => Ended(0))
            [] cfg.k = "f_all" -> Tail(LastE.v) = Taken /\ LastE.v[1] = Len(Taken) /\ Ended(0)
            [] cfg.k \in {"f_until", "f_line"} -> Tail(LastE.v) = Taken /\ LastE.v[1] = Len(Taken) /\ (Ended(0) \/ Ends(Taken, NL)) /\ \A i \in 1 .. (Len(Taken) - 1) : Taken[i] # NL
            [] cfg.k = "f_wall" -> Written = <<7, 8, 9>>
            [] cfg.k = "f_write" -> IsPrefix(Written, <<7, 8, 9>>) /\ LastE.v[1] = Len(Written)
            [] cfg.k \in Copiers -> Written = Taken0 /\ Ended(0) /\ LastE.v[1] = Len(Written) /\ Shown = <<>> /\ SinceWrite("flush")
            [] OTHER -> TRUE
CopyOrder == cfg.k \in Copiers => IsPrefix(Written, Taken0 \o Shown) /\ (cfg.k = "copybuf" => Len(Taken0) <= Len(Written))
\* lines: the items are the source's lines without their ends
RECURSIVE SplitLines(_)
SplitLines(q) == IF q = <<>> THEN <<>> ELSE
  LET e == {i \in 1 .. Len(q) : q[i] = NL}
      m == IF e = {} THEN Len(q) ELSE CHOOSE i \in e : \A j \in e : i <= j IN <<Strip(Take(q, m))>> \o SplitLines(Drop(q, m))
LineItems == LET s == SelectSeq(log, LAMBDA e : e.e = "ret" /\ e.r = "item") IN [i \in 1 .. Len(s) |-> s[i].v]
Failed == \E i \in 1 .. Len(log) : log[i].e = "ret" /\ log[i].r = "err"
Lined == cfg.k = "lines" /\ ~Failed => IsPrefix(LineItems, SplitLines(Taken)) /\ (LastE.r = "none" => LineItems = SplitLines(Taken) /\ Ended(0))
\* what the user asks for can always be begun; a machine that took too much is stuck, which is what refuses the code that does
IAble == LastE.e \in {"arg", "ret"} /\ st.op # "end" => Able
=============================================================================
