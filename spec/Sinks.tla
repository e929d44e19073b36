------------------------------- MODULE Sinks -------------------------------
(* Sink adapters and futures that drive sinks (C24). The underlying sinks   *)
(* are scripted; an event snk{k, op, r, v, x} is a call of sink k's          *)
(* ready / send / flush / close, its answer, the item sent and the error.    *)
(* item{v}: the user is about to start_send v (op = "send").                 *)
EXTENDS SeqCore
\* s, t: items owed to sinks 0 and 1 (or to the only sink); tok: sinks that said ready and were not sent to since;
\* fl / cl: flushed (closed) and nothing sent since; dirty: sent to since the last flush; clg: close was called; sk: the sinks; q: an error owed to the user
KInit(c) == [Core0 EXCEPT !.s = IF c.k \in {"feed", "send"} THEN <<c.init>> ELSE <<>>]
            @@ [tok |-> {}, fl |-> {}, cl |-> {}, dirty |-> {}, clg |-> {}, acc |-> <<c.init>>,
                sk |-> IF c.k \in {"unfold", "flatten"} THEN {} ELSE IF c.k = "buffer" THEN {0} ELSE 0 .. (c.n - 1)]
Fwd == {"send_all", "forward"}
Fail(st, v) == [st EXCEPT !.q = <<Out("err", <<v>>)>>, !.stg = "idle"]
Owe(st, k) == IF k = 1 /\ Cardinality(st.sk) = 2 THEN st.t ELSE st.s
Cap(c) == IF c.k = "buffer" THEN c.n ELSE 0
KCanPoll(c, st, k) ==
  CASE c.k \in Fwd -> k = 1 /\ Quiet(st) /\ st.s = <<>>
    [] c.k = "flatten" -> Quiet(st) /\ k = 0 /\ st.op = "ready"
    [] c.k = "wfm" -> Quiet(st) /\ st.stg = "fut" /\ k = st.fid /\ st.s = <<>>
    [] OTHER -> Quiet(st) /\ st.stg = "fut" /\ k = st.fid
KAnswer(c, st, ev) ==
  {IF ev.r = "err" THEN Fail(st, ev.v)
   ELSE CASE c.k \in Fwd -> IF ev.r = "end" THEN [st EXCEPT !.b = TRUE] ELSE [st EXCEPT !.s = <<ev.v>>]
          [] c.k = "flatten" -> [st EXCEPT !.sk = {ev.v}]
          [] c.k = "with" -> [st EXCEPT !.s = <<ev.v>>, !.stg = "idle"]
          [] c.k = "wfm" -> IF ev.r = "end" THEN Idle(st) ELSE [st EXCEPT !.s = <<ev.v>>]
          [] c.k = "unfold" -> [st EXCEPT !.acc = <<ev.v>>, !.stg = "idle"]}
KCalled(c, st, ev) ==
  CASE c.k = "map_err" -> If(st.stg = "call" /\ ev.a = <<st.cur>>, {Fail(st, ev.v)})
    [] c.k \in {"with", "wfm"} -> If(st.stg = "call" /\ st.op = "send" /\ ev.a = <<st.cur>>, {InFut(st, ev.v)})
    [] c.k = "unfold" -> If(st.stg = "call" /\ st.op = "send" /\ ev.a = Append(st.acc, st.cur), {InFut(st, ev.v)})
    [] OTHER -> {}
SetOwe(st, k, q) == IF k = 1 /\ Cardinality(st.sk) = 2 THEN [st EXCEPT !.t = q] ELSE [st EXCEPT !.s = q]
Snk(c, st, ev) ==
  LET k == ev.k
      h == [st EXCEPT !.ans = @ \cup {k}, !.pend = IF ev.r = "pend" THEN @ \cup {k} ELSE @ \ {k}]
      bad(z) == IF c.k = "map_err" THEN Need(z, ev.x) ELSE Fail(z, ev.x)
  IN IF ~(k \in st.sk /\ Quiet(st) /\ st.stg \in {"idle", "fut"}) THEN {}
     ELSE IF ev.r = "panic" THEN {[st EXCEPT !.stg = "panic"]}
     ELSE CASE ev.op = "ready" -> {CASE ev.r = "pend" -> [h EXCEPT !.tok = @ \ {k}] [] ev.r = "ok" -> [h EXCEPT !.tok = @ \cup {k}] [] OTHER -> bad(h)}
            [] ev.op = "send" ->
                 LET n == [SetOwe(st, k, Tail(Owe(st, k))) EXCEPT !.tok = @ \ {k}, !.fl = @ \ {k}, !.dirty = @ \cup {k}] IN
                 If(k \in st.tok /\ k \notin st.clg /\ Owe(st, k) # <<>> /\ Head(Owe(st, k)) = ev.v, {IF ev.r = "ok" THEN n ELSE bad(n)})
            [] ev.op = "flush" -> If(k \notin st.clg, {CASE ev.r = "pend" -> h [] ev.r = "ok" -> [h EXCEPT !.fl = @ \cup {k}, !.dirty = @ \ {k}] [] OTHER -> bad(h)})
            [] ev.op = "close" -> LET g == [h EXCEPT !.clg = @ \cup {k}] IN
                 If(Owe(st, k) = <<>> /\ st.stg = "idle" /\ (st.op = "close" \/ c.k = "close" \/ (c.k = "forward" /\ st.b)),
                    {CASE ev.r = "pend" -> g [] ev.r = "ok" -> [g EXCEPT !.cl = @ \cup {k}] [] OTHER -> bad(g)})
Item(c, st, v) ==
  CASE c.k \in {"with", "wfm", "unfold"} -> If(st.stg = "idle", {Need(st, v)})
    [] c.k = "drain" -> {st}
    [] OTHER -> {[st EXCEPT !.s = Append(@, v), !.t = IF Cardinality(st.sk) = 2 THEN Append(@, v) ELSE @]}
KExtra(c, st, ev) == CASE ev.e = "snk" -> Snk(c, st, ev) [] ev.e = "item" -> Item(c, st, ev.v) [] ev.e = "closed" -> If(ev.v = (0 \in st.cl), {st}) [] OTHER -> {}
Clean(st) == st.s = <<>> /\ st.t = <<>> /\ st.stg = "idle"
Stuck(st, ok) == st.sk \cap st.pend # {} /\ st.sk \subseteq st.pend \cup ok    \* some sink is pending, all others are done
KPendOK(c, st) ==
  /\ Quiet(st)
  /\ CASE c.k = "feed" -> 0 \in st.pend /\ 0 \notin st.tok
       [] c.k = "send" -> 0 \in st.pend
       [] c.k \in {"flush", "close"} -> 0 \in st.pend
       [] c.k \in Fwd -> IF st.s # <<>> \/ st.b THEN 0 \in st.pend ELSE 1 \in st.pend /\ (0 \in st.pend \/ 0 \notin st.dirty)
       [] st.stg = "fut" -> IF c.k = "wfm" /\ st.s # <<>> THEN 0 \in st.pend ELSE st.fid \in st.pend
       [] c.k = "flatten" /\ st.sk = {} -> st.op = "ready" /\ 0 \in st.pend
       [] st.op = "ready" -> IF Cap(c) > 0 THEN Len(st.s) >= Cap(c) /\ 0 \in st.pend ELSE Stuck(st, st.tok)
       [] st.op = "flush" -> IF Clean(st) THEN Stuck(st, st.fl) ELSE st.sk \cap st.pend # {}
       [] st.op = "close" -> IF Clean(st) THEN Stuck(st, st.cl) ELSE st.sk \cap st.pend # {}
       [] OTHER -> FALSE
KSticky(c, st) == {}
KRet(c, s, ev) ==
  IF s.q # <<>> THEN If(ev.r = "err" /\ Head(s.q) = Out(ev.r, ev.v), {[s EXCEPT !.q = <<>>, !.fin = TRUE]})
  ELSE IF s.stg = "call" \/ ev.r = "err" THEN {}
  ELSE CASE c.k = "feed" -> If(ev.r = "val" /\ s.s = <<>>, {Fin(s)})
         [] c.k = "send" -> If(ev.r = "val" /\ s.s = <<>> /\ 0 \in s.fl, {Fin(s)})
         [] c.k = "flush" -> If(ev.r = "val" /\ 0 \in s.fl, {Fin(s)})
         [] c.k = "close" -> If(ev.r = "val" /\ 0 \in s.cl, {Fin(s)})
         [] c.k = "send_all" -> If(ev.r = "val" /\ s.b /\ s.s = <<>> /\ 0 \in s.fl, {Fin(s)})
         [] c.k = "forward" -> If(ev.r = "val" /\ s.b /\ s.s = <<>> /\ 0 \in s.cl, {Fin(s)})
         [] s.op = "ready" -> If(ev.r = "ok" /\ (IF Cap(c) > 0 THEN Len(s.s) < Cap(c) ELSE Clean(s) /\ (c.k # "wfm" => s.sk \subseteq s.tok) /\ (c.k = "flatten" => s.sk # {})), {s})
         [] s.op = "send" -> If(ev.r = "ok" /\ Len(s.s) <= Cap(c) /\ Len(s.t) <= Cap(c), {s})
         [] s.op = "flush" -> If(ev.r = "ok" /\ Clean(s) /\ s.sk \subseteq s.fl, {s})
         [] s.op = "close" -> If(ev.r = "val" /\ Clean(s) /\ s.sk \subseteq s.cl, {Fin(s)})
         [] OTHER -> {}
=============================================================================
