--------------------------------- MODULE Io --------------------------------
(* Readers, writers and the futures over them (C25, C26).                   *)
(*   io{k, op, len, r, v, x}  object k was asked to read / fill / consume /  *)
(*            write / flush / close / seek / next and answered r with bytes v *)
(*   arg{op, n, v, wh, o}     the operation the user is performing            *)
(*   init{k, data}, prefix{v} an object's contents; what is to be written or  *)
(*            what the destination held before                                *)
EXTENDS SeqCore
Drop(q, n) == SubSeq(q, n + 1, Len(q))
Take(q, n) == SubSeq(q, 1, IF n < Len(q) THEN n ELSE Len(q))
Prefix(a, q) == Len(a) <= Len(q) /\ SubSeq(q, 1, Len(a)) = a
Part(q, a, b) == SubSeq(q, a + 1, IF b < Len(q) THEN b ELSE Len(q))     \* bytes a .. b - 1
Ends(q, x) == q # <<>> /\ q[Len(q)] = x
NL == 10
CR == 13
\* é is 195 169; 255 never occurs in text
Valid(q) == \A i \in 1 .. Len(q) : /\ q[i] # 255
                                   /\ q[i] = 195 => (i < Len(q) /\ q[i + 1] = 169)
                                   /\ q[i] = 169 => (i > 1 /\ q[i - 1] = 195)
Strip(q) == IF ~Ends(q, NL) THEN q ELSE LET a == Take(q, Len(q) - 1) IN IF Ends(a, CR) THEN Take(a, Len(a) - 1) ELSE a
\* s: bytes obtained and not yet delivered (readers), accepted and not yet written (writers)
\* t: bytes a buffered source shows; n: limit (take); eof: sources that said so in this poll; err: error met in this poll; z: the writer took nothing;
\* full: no short write in this poll; m: bytes of the argument already written (copybuf: shown bytes written but not consumed); arg, alen, wh, o: the operation;
\* fl, cl: flushed / closed since the last write; p: position of the source; u: position of the user; data: contents per object; pre: prefix; amt: bytes copied; done: chain's first is over
IoInit(c) == [Core0 EXCEPT !.n = c.n]
             @@ [eof |-> {}, err |-> <<>>, z |-> FALSE, full |-> TRUE, m |-> 0, arg |-> <<>>, alen |-> 0, wh |-> 0, o |-> 0, fl |-> FALSE, cl |-> FALSE, clg |-> FALSE,
                 p |-> 0, u |-> 0, data |-> <<>>, pre |-> <<>>, amt |-> 0, done |-> FALSE, ab |-> FALSE, inop |-> FALSE]
Readers == {"id", "bufreader", "take", "takebuf", "chain", "chunks"}
Writers == {"idw", "stdw", "bufwriter", "linewriter", "intosink"}
Copiers == {"copy", "copybuf"}
FRead == {"f_read", "f_exact", "f_all", "f_str", "f_until", "f_line", "f_fill", "lines"}
FWrite == {"f_write", "f_wall", "f_flush", "f_close"}
IsTake(c) == c.k \in {"take", "takebuf"}
Cap(c) == CASE c.k = "takebuf" -> c.d [] c.k = "bufreader" -> c.n [] c.k = "chunks" -> c.n [] OTHER -> 0
Lim(c, st) == IF IsTake(c) THEN st.n ELSE 1000000
Pos(st) == [st EXCEPT !.s = Part(st.data[1], st.u, st.p)]      \* what a seekable reader may still hold
\* --- the source answered ---------------------------------------------------------------------
CanRead(c, st, ev) ==
  /\ st.err = <<>> /\ ev.k \notin st.eof
  /\ CASE c.k = "chain" -> IF ev.k = 0 THEN ~st.done ELSE ev.k = 1 /\ st.done
       [] c.k \in Copiers -> ev.k = 0 /\ ~st.ab /\ ~st.z /\ (c.k = "copy" => st.s = <<>>) /\ st.m = 0
       [] c.k = "f_exact" -> ev.op = "read" /\ ev.len <= c.n - Len(st.s)
       [] c.k = "f_read" -> ev.op = "read" /\ ev.len <= c.n - Len(st.s)
       [] c.k \in {"f_until", "f_line", "lines"} -> ev.op \in {"fill", "consume"} /\ (ev.op = "fill" => ~Ends(st.s, IF c.k = "f_until" THEN c.d ELSE NL))
       [] IsTake(c) -> st.n > 0 \/ ev.op = "consume"
       [] c.k = "id" /\ c.d > 0 /\ ev.op = "read" -> ev.len <= c.d      \* limited
       [] c.k \in Readers \cup FRead -> TRUE
       [] OTHER -> FALSE
Source(c, st, ev) ==
  LET h == [st EXCEPT !.ans = @ \cup {ev.k}, !.pend = @ \ {ev.k}] IN
  CASE ev.r = "pend" -> {[st EXCEPT !.pend = @ \cup {ev.k}]}
    [] ev.r = "err" -> {[h EXCEPT !.err = <<ev.x>>, !.done = @ \/ c.k = "chunks"]}
    [] ev.r = "intr" -> {h}
    [] ev.r = "end" \/ (ev.r = "ok" /\ ev.v = <<>> /\ (ev.op = "fill" \/ (ev.op = "read" /\ ev.len > 0))) ->
         {[h EXCEPT !.eof = @ \cup {ev.k}, !.done = c.k \in {"chain", "chunks"}, !.t = <<>>]}
    [] ev.r = "ok" /\ ev.op = "fill" -> {[h EXCEPT !.t = ev.v]}
    [] ev.r = "ok" -> {[h EXCEPT !.s = @ \o ev.v, !.p = @ + Len(ev.v), !.t = <<>>]}
    [] OTHER -> {}
Consumed(c, st, ev) ==
  IF ev.r # "ok" \/ ev.len > Len(st.t) THEN {}
  ELSE IF c.k = "copybuf" THEN If(ev.len <= st.m, {[st EXCEPT !.t = Drop(@, ev.len), !.m = @ - ev.len]})
  ELSE IF c.k \in {"f_until", "f_line", "lines"} /\ LET a == st.s \o Take(st.t, ev.len) IN \E i \in 1 .. (Len(a) - 1) : a[i] = IF c.k = "f_until" THEN c.d ELSE NL THEN {}
  ELSE {[st EXCEPT !.s = @ \o Take(st.t, ev.len), !.t = Drop(@, ev.len), !.p = @ + ev.len]}
\* --- the writer answered ---------------------------------------------------------------------
Wk(c) == IF c.k \in Copiers THEN 1 ELSE 0
Due(c, st) == IF c.k = "copy" THEN st.s ELSE IF c.k = "copybuf" THEN Drop(st.t, st.m) ELSE st.s \o Drop(st.arg, st.m)
Wrote(c, st, a) ==
  IF c.k = "copy" THEN [st EXCEPT !.s = Drop(@, Len(a)), !.amt = @ + Len(a)]
  ELSE IF c.k = "copybuf" THEN [st EXCEPT !.m = @ + Len(a), !.amt = @ + Len(a)]
  ELSE LET k == IF Len(a) < Len(st.s) THEN Len(a) ELSE Len(st.s) IN [st EXCEPT !.s = Drop(@, k), !.m = @ + Len(a) - k]
Writer(c, st, ev) ==
  LET h == [st EXCEPT !.ans = @ \cup {ev.k}, !.pend = @ \ {ev.k}] IN
  IF ev.k # Wk(c) \/ st.err # <<>> \/ st.z \/ st.ab \/ ~(c.k \in Writers \cup FWrite \cup Copiers) \/ (ev.op = "write" /\ (st.clg \/ ev.len > Len(Due(c, st)))) THEN {}
  ELSE CASE ev.r = "pend" -> {[st EXCEPT !.pend = @ \cup {ev.k}, !.clg = @ \/ ev.op = "close"]}
    [] ev.r = "err" -> {[h EXCEPT !.err = <<ev.x>>, !.clg = @ \/ ev.op = "close"]}
    [] ev.r = "intr" -> {h}
    [] ev.r = "ok" /\ ev.op = "write" ->
         If((c.k = "idw" /\ c.d > 0 => ev.len <= c.d) /\ Prefix(ev.v, Due(c, st)),
            {[Wrote(c, h, ev.v) EXCEPT !.fl = FALSE, !.full = @ /\ Len(ev.v) = ev.len, !.z = (ev.v = <<>> /\ ev.len > 0)]})
    [] ev.r = "ok" /\ ev.op = "flush" -> If(~st.clg, {[h EXCEPT !.fl = TRUE]})
    [] ev.r = "ok" /\ ev.op = "close" -> If(st.s = <<>> /\ st.op # "write", {[h EXCEPT !.cl = TRUE, !.clg = TRUE]})
    [] OTHER -> {}
Seeked(c, st, ev) ==
  LET h == [st EXCEPT !.ans = @ \cup {ev.k}, !.pend = @ \ {ev.k}] IN
  IF st.err # <<>> \/ (c.k = "bufwriter" /\ st.s # <<>>) THEN {}
  ELSE CASE ev.r = "pend" -> {[st EXCEPT !.pend = @ \cup {ev.k}]}
    [] ev.r = "err" -> {[h EXCEPT !.err = <<ev.x>>]}
    [] ev.r = "intr" -> {h}
    [] ev.r = "ok" -> {IF c.k \in Readers THEN Pos([h EXCEPT !.p = ev.x, !.t = <<>>]) ELSE [h EXCEPT !.p = ev.x]}
    [] OTHER -> {}
IoCanPoll(c, st, k) == FALSE
IoAnswer(c, st, ev) == {}
IoCalled(c, st, ev) == {}
IoSticky(c, st) == {}
IoExtra(c, st, ev) ==
  CASE ev.e = "init" -> {[st EXCEPT !.data = Append(@, ev.data), !.p = IF c.k = "window" THEN Len(ev.data) ELSE @]}
    [] ev.e = "prefix" -> {[st EXCEPT !.pre = ev.v, !.arg = IF c.k \in FWrite THEN ev.v ELSE <<>>]}
    [] ev.e = "arg" -> {[st EXCEPT !.eof = {}, !.err = <<>>, !.z = FALSE, !.full = TRUE, !.op = ev.op, !.alen = ev.n, !.wh = ev.wh, !.o = ev.o,
                                   !.m = IF c.k \in FWrite \cup {"copybuf"} THEN @ ELSE 0,
                                   !.arg = IF c.k \in FWrite THEN @ ELSE IF ev.op \in {"write", "writev"} \/ c.k = "window" THEN ev.v ELSE IF ev.op = "send" THEN ev.v ELSE <<>>]}
    [] ev.e = "closed" -> If(ev.v = st.cl, {st})
    [] ev.e = "aborted" -> If(ev.ok, {[st EXCEPT !.ab = TRUE]})
    [] ev.e = "io" -> IF ev.r = "panic" THEN {[st EXCEPT !.stg = "panic"]}
                      ELSE CASE ev.op \in {"read", "fill", "next"} -> If(CanRead(c, st, ev), Source(c, st, ev))
                             [] ev.op = "consume" -> Consumed(c, st, ev)
                             [] ev.op \in {"write", "flush", "close"} -> Writer(c, st, ev)
                             [] ev.op = "seek" -> Seeked(c, st, ev)
                             [] OTHER -> {}
    [] OTHER -> {}
\* --- returns ---------------------------------------------------------------------------------
Over(c, st) == IF c.k = "chunks" THEN st.done ELSE st.eof # {} /\ (c.k = "chain" => 1 \in st.eof)
RetErr(c, st, ev) == ev.v[1] > 0 /\ <<ev.v[1]>> = st.err       \* the error met, and only that
Deliver(c, st, a) == LET r == [st EXCEPT !.s = Drop(@, Len(a)), !.u = @ + Len(a), !.n = IF IsTake(c) THEN @ - Len(a) ELSE @] IN If(Len(r.s) <= Cap(c), {r})
Target(st) == CASE st.wh = 0 -> st.o [] st.wh = 1 -> st.u + st.o [] OTHER -> Len(st.data[1]) + st.o
RetReader(c, st, ev) ==
  LET a == ev.v IN
  IF ev.r = "err" THEN If(RetErr(c, st, ev) /\ Len(st.s) <= Cap(c), {st})
  ELSE IF st.err # <<>> THEN {}
  ELSE CASE st.op \in {"read", "readv"} ->
              If(/\ ev.r = "ok" /\ Prefix(a, st.s) /\ Len(a) <= st.alen /\ Len(a) <= Lim(c, st)
                 /\ a = <<>> => (st.alen = 0 \/ Lim(c, st) = 0 \/ (st.s = <<>> /\ Over(c, st))), Deliver(c, st, a))
         [] st.op = "fill" ->
              If(/\ ev.r = "ok" /\ Prefix(a, st.s \o st.t) /\ Len(a) <= Lim(c, st) /\ Len(st.s) <= Cap(c)
                 /\ a = <<>> => (Lim(c, st) = 0 \/ (st.s \o st.t = <<>> /\ Over(c, st))), {st})
         [] st.op = "consume" -> If(Len(st.s) >= st.alen, Deliver(c, st, Take(st.s, st.alen)))
         [] st.op = "seek" -> If(ev.r = "ok" /\ a = <<Target(st)>> /\ st.o > -9999, {Pos([st EXCEPT !.u = Target(st)])})
         [] st.op = "seekrel" -> If(ev.r = "ok" /\ a = <<>> /\ Target(st) >= 0, {Pos([st EXCEPT !.u = Target(st)])})
         [] st.op = "look" -> If(c.k = "take" \/ a = st.s, {st})
         [] st.op = "limit" -> If(a = <<st.n>>, {st})
         [] st.op = "setlim" -> {[st EXCEPT !.n = st.alen]}
         [] OTHER -> If(st.op = "end", {st})
RetWriter(c, st, ev) ==
  IF ev.r = "err" THEN If(st.m = 0 /\ (RetErr(c, st, ev) \/ (ev.v[1] = -1 /\ st.z)), {st})
  ELSE IF st.err # <<>> THEN {}
  ELSE CASE st.op \in {"write", "writev"} ->
              LET k == ev.v[1]
                  r == [st EXCEPT !.s = @ \o SubSeq(st.arg, st.m + 1, k), !.m = 0, !.arg = <<>>] IN
              If(/\ ev.r = "ok" /\ k >= st.m /\ k <= Len(st.arg) /\ (k = 0 => (st.z \/ st.arg = <<>>))
                 /\ Len(r.s) <= Cap(c) \/ (c.k \in {"bufwriter", "linewriter"} /\ Len(r.s) <= c.n)
                 \* a line writer holds a finished line back only if the writer was short
                 /\ (c.k = "linewriter" /\ st.full) => (\A i \in 1 .. Len(r.s) : r.s[i] # NL), {r})
         [] st.op = "send" -> If(ev.r = "ok" /\ st.s = <<>> /\ st.m = 0, {[st EXCEPT !.s = st.arg, !.arg = <<>>]})
         [] st.op = "ready" -> If(ev.r = "ok" /\ st.s = <<>> /\ ~st.z, {st})
         [] st.op = "flush" -> If(ev.r = "ok" /\ st.s = <<>> /\ st.fl, {st})
         [] st.op = "close" -> If(ev.r = "val" /\ st.s = <<>> /\ (st.cl \/ (c.k = "stdw" /\ st.fl)), {Fin(st)})
         [] st.op = "seek" -> If(ev.r = "ok" /\ st.s = <<>> /\ ev.v = <<st.p>> /\ st.ans # {}, {st})
         [] OTHER -> {}
RetFRead(c, st, ev) ==
  LET h == ev.v[1]
      b == Tail(ev.v)
      all == st.pre \o st.s
      cut == ev.r = "val" /\ h = -9
      bad == ev.r = "err" /\ RetErr(c, st, ev)
      fine == ev.r = "val" /\ st.err = <<>>
      kept == b = all                     \* everything taken from the source is in the destination
      line == Ends(st.s, IF c.k = "f_until" THEN c.d ELSE NL)
      text == b \in {<<>>, st.pre} \/ (b = all /\ Valid(st.s))
  IN If(CASE c.k = "f_read" -> cut \/ bad \/ (fine /\ h = Len(b) /\ b = st.s /\ st.ans # {} /\ (b = <<>> => (c.n = 0 \/ st.eof # {})))
          [] c.k = "f_exact" -> cut \/ bad \/ (fine /\ h = 0 /\ b = st.s /\ Len(b) = c.n) \/ (ev.r = "err" /\ h = -2 /\ st.eof # {} /\ Len(st.s) < c.n)
          [] c.k = "f_all" -> (cut /\ kept) \/ (bad /\ kept) \/ (fine /\ kept /\ h = Len(st.s) /\ st.eof # {})
          [] c.k = "f_str" -> (cut /\ text) \/ (bad /\ text) \/ (fine /\ kept /\ h = Len(st.s) /\ st.eof # {} /\ Valid(st.s)) \/ (ev.r = "err" /\ h = -3 /\ st.eof # {} /\ ~Valid(st.s) /\ text)
          [] c.k = "f_until" -> (cut /\ kept) \/ (bad /\ kept) \/ (fine /\ kept /\ h = Len(st.s) /\ (line \/ st.eof # {}))
          [] c.k = "f_line" -> (cut /\ (b = st.pre \/ (kept /\ Valid(st.s)))) \/ (bad /\ (b = st.pre \/ (kept /\ Valid(st.s)))) \/ (fine /\ kept /\ h = Len(st.s) /\ (line \/ st.eof # {}) /\ Valid(st.s))
                               \/ (ev.r = "err" /\ h = -3 /\ (line \/ st.eof # {}) /\ ~Valid(st.s) /\ b = st.pre)
          [] c.k = "f_fill" -> cut \/ bad \/ (fine /\ b = st.t /\ st.ans # {} /\ (b = <<>> => st.eof # {})), {Fin(st)})
RetLines(c, st, ev) ==
  LET end == Ends(st.s, NL) \/ (st.eof # {} /\ st.s # <<>>)
      next == [st EXCEPT !.s = <<>>] IN
  CASE ev.r = "none" -> If(st.s = <<>> /\ st.eof # {} /\ st.err = <<>>, {Fin(st)})
    [] ev.r = "item" -> If(end /\ st.err = <<>> /\ Valid(st.s) /\ ev.v = Strip(st.s), {next})
    [] ev.r = "err" -> If(RetErr(c, st, ev), {next, st}) \cup If(ev.v = <<-3>> /\ end /\ ~Valid(st.s), {next})   \* an interrupted line may be given up or resumed
    [] OTHER -> {}
RetFWrite(c, st, ev) ==
  LET h == ev.v[1]
      cut == ev.r = "val" /\ h = -9
      fine == ev.r = "val" /\ st.err = <<>> IN
  If((ev.r = "err" /\ RetErr(c, st, ev)) \/ cut \/ (ev.r = "err" /\ h = -1 /\ st.z /\ c.k = "f_wall")
     \/ CASE c.k = "f_write" -> fine /\ h = st.m /\ st.ans # {}
          [] c.k = "f_wall" -> fine /\ st.m = Len(st.arg)
          [] c.k = "f_flush" -> fine /\ st.fl
          [] c.k = "f_close" -> fine /\ st.cl, {Fin(st)})
RetCopy(c, st, ev) ==
  LET h == ev.v[1] IN
  If(/\ st.m = 0
     /\ \/ (ev.r = "err" /\ RetErr(c, st, ev)) \/ (ev.r = "val" /\ h = -9) \/ (ev.r = "err" /\ h = -1 /\ st.z)
        \/ (ev.r = "val" /\ h = -8 /\ st.ab)
        \/ (ev.r = "val" /\ ~st.ab /\ st.err = <<>> /\ h = st.amt /\ 0 \in st.eof /\ st.s = <<>> /\ st.t = <<>> /\ st.fl), {Fin(st)})
\* memory: n = 0 growing, 1 fixed
Pad(q, n) == IF Len(q) >= n THEN q ELSE q \o [i \in 1 .. (n - Len(q)) |-> 0]
RetMem(c, st, ev) ==
  LET d == st.data[1]
      a == ev.v
      av == Part(d, st.u, Len(d))
      put(k) == Take(Pad(d, st.u), st.u) \o Take(st.arg, k) \o Drop(d, st.u + k) IN
  CASE ev.r = "err" -> If(st.op = "seek" /\ (Target(st) < 0 \/ st.o < -9999), {st})
    [] st.op = "read" \/ st.op = "readv" -> If(a = Take(av, st.alen), {[st EXCEPT !.u = @ + Len(a)]})
    [] st.op = "fill" -> If(a = av, {st})
    [] st.op = "consume" -> {[st EXCEPT !.u = @ + st.alen]}
    [] st.op = "seek" -> If(Target(st) >= 0 /\ a = <<Target(st)>> /\ st.o > -9999, {[st EXCEPT !.u = Target(st)]})
    [] st.op \in {"write", "writev"} ->
         LET room == IF st.u >= Len(d) THEN 0 ELSE Len(d) - st.u
             k == IF c.n = 1 /\ room < Len(st.arg) THEN room ELSE Len(st.arg) IN
         If(a = <<k>>, IF k = 0 THEN {st, [st EXCEPT !.data = <<Pad(@[1], st.u)>>]} ELSE {[st EXCEPT !.data = <<put(k)>>, !.u = @ + k]})
    [] st.op = "look" -> If(a = d \/ (c.n = 0 /\ Prefix(a, Pad(d, st.u)) /\ Len(a) >= Len(d)), {st})
    [] st.op \in {"flush", "close", "end"} -> {st}
    [] OTHER -> {}
RetMemV(c, st, ev) ==
  CASE st.op \in {"write", "writev"} -> If(ev.v = <<Len(st.arg)>>, {[st EXCEPT !.data = <<@[1] \o st.arg>>]})
    [] st.op = "look" -> If(ev.v = st.data[1], {st})
    [] st.op \in {"flush", "close"} -> If(ev.r # "err", {st})
    [] OTHER -> {}
\* a window onto a buffer shows data[u .. p - 1]; bounds: 0 included, 1 excluded, 2 none
RetWindow(c, st, ev) ==
  LET d == st.data[1]
      lo == CASE st.arg[1] = 0 -> st.arg[2] [] st.arg[1] = 1 -> st.arg[2] + 1 [] OTHER -> 0
      hi == CASE st.arg[3] = 0 -> st.arg[4] + 1 [] st.arg[3] = 1 -> st.arg[4] [] OTHER -> Len(d) IN
  CASE st.op = "set" -> IF lo <= hi /\ hi <= Len(d) THEN If(ev.r = "ok", {[st EXCEPT !.u = lo, !.p = hi]}) ELSE If(ev.r = "err", {st})
    [] st.op = "put" -> {[st EXCEPT !.data = <<Take(d, st.u) \o st.arg \o Drop(d, st.p)>>]}
    [] st.op = "range" -> If(ev.v = <<st.u, st.p>>, {st})
    [] st.op = "look" -> If(ev.v = Part(d, st.u, st.p), {st})
    [] OTHER -> If(ev.v = d, {Fin(st)})
IoRet(c, st, ev) ==
  CASE c.k \in Readers -> RetReader(c, st, ev)
    [] c.k \in Writers -> RetWriter(c, st, ev)
    [] c.k = "lines" -> RetLines(c, st, ev)
    [] c.k \in FRead -> RetFRead(c, st, ev)
    [] c.k \in FWrite -> RetFWrite(c, st, ev)
    [] c.k \in Copiers -> RetCopy(c, st, ev)
    [] c.k = "f_seek" -> If((ev.r = "val" /\ (ev.v = <<-9>> \/ (ev.v = <<c.n>> /\ st.p = c.n /\ st.ans # {}))) \/ (ev.r = "err" /\ RetErr(c, st, ev)), {Fin(st)})
    [] c.k = "mem" -> RetMem(c, st, ev)
    [] c.k = "memv" -> RetMemV(c, st, ev)
    [] c.k = "window" -> RetWindow(c, st, ev)
    [] c.k = "rep" -> If(st.op = "end" \/ ev.v = [i \in 1 .. st.alen |-> st.data[1][1]], {st})
    [] OTHER -> {}
\* Pending only while nothing can be delivered, and with nothing of the argument already taken.
IoPendOK(c, st) ==
  /\ st.err = <<>> /\ ~st.z
  /\ CASE c.k \in Readers -> (st.op \in {"read", "readv", "fill"} => (st.s = <<>> /\ Lim(c, st) > 0)) /\ st.op # "consume"
       [] c.k \in Writers -> st.m = 0
       [] c.k = "f_exact" -> Len(st.s) < c.n
       [] c.k = "copybuf" -> st.m = 0 /\ ~st.ab
       [] c.k = "f_wall" -> st.m < Len(st.arg)
       [] c.k \in {"mem", "memv", "rep", "window"} -> FALSE
       [] OTHER -> TRUE
=============================================================================
