-------------------------------- MODULE Tasks -------------------------------
(* Wakers made from shared objects (C33) and the wakers and spawners for      *)
(* tests (C34). An object counts by-reference wakes (r) and, if it overrides   *)
(* `wake`, by-value ones (v); c is the number of handles that keep it alive.   *)
(*   obj{o, tag}        an object is made: a (default wake), b (own wake),     *)
(*                      count (counting waker), std (inert waker)              *)
(*   op{op, h, o, x, r} an operation on handle h of object o                   *)
(*   see{o, c, r, v}    what the object shows afterwards                       *)
(*   id{op, h, x, o, r} handles of channels and shared futures: which belong   *)
(*                      together and how many there are                        *)
EXTENDS SeqCore
KInit(c) == Core0 @@ [tag |-> <<>>, h |-> <<>>, r |-> <<>>, v |-> <<>>, up |-> {}, m |-> 0]
\* h: handle |-> object (or -1 once used up); sequences are indexed by number + 1
Of(s, h) == s.h[h + 1]
Held(s, o) == Cardinality({i \in 1 .. Len(s.h) : s.h[i] = o})
New(s, h, o) == If(h = Len(s.h), {[s EXCEPT !.h = Append(@, o)]})
Bump(s, o, byval) == IF s.tag[o + 1] = "std" THEN s
                     ELSE IF byval /\ s.tag[o + 1] = "b" THEN [s EXCEPT !.v[o + 1] = @ + 1] ELSE [s EXCEPT !.r[o + 1] = @ + 1]
Gone(s, h) == [s EXCEPT !.h[h + 1] = -1]
Op(s, ev) ==
  CASE ev.op = "waker" -> New(s, ev.h, ev.o)
    [] ev.op = "refwake" -> {Bump(s, ev.o, FALSE)}
    [] ev.op = "refcw" -> {Bump(s, ev.o, TRUE)}
    [] ev.op = "clone" -> If(Of(s, ev.h) = ev.o, New(s, ev.x, ev.o))
    [] ev.op = "wake" -> If(~ev.r, {Bump(Gone(s, ev.h), ev.o, TRUE)})
    [] ev.op = "wakeref" -> If(~ev.r, {Bump(s, ev.o, FALSE)})
    [] ev.op = "drop" -> If(~ev.r, {Gone(s, ev.h)})
    [] ev.op = "will" -> If(ev.r => Of(s, ev.h) = Of(s, ev.x) \/ {s.tag[Of(s, ev.h) + 1], s.tag[Of(s, ev.x) + 1]} = {"std"}, {s})
    [] ev.op = "cfrom" -> {[s EXCEPT !.h[ev.h + 1] = ev.o]}
    [] ev.op = "forget" -> {s}
    [] OTHER -> {}
See(s, ev) == /\ s.tag[ev.o + 1] \in {"a", "b"} => ev.c = Held(s, ev.o)
              /\ s.tag[ev.o + 1] \in {"a", "b", "count"} => ev.r = s.r[ev.o + 1]
              /\ ev.v = s.v[ev.o + 1]
\* n: futures recorded so far; t: the spawned ones that should run, in order
Spawned(c, s, ev) ==
  CASE ev.to = "rec" -> If(ev.ok /\ ev.n = s.m + 1 /\ ev.live = 1, {[s EXCEPT !.m = @ + 1]})
    [] ev.to = "noop" -> If(ev.ok /\ ev.live = 0, {s})
    [] ev.to = "panic" -> If(~ev.ok /\ ev.live = 0, {s})
    [] ev.to = "via" -> If(ev.ok /\ ev.live = (IF ev.n < 0 THEN 0 ELSE 1), {IF ev.n < 0 THEN s ELSE [s EXCEPT !.t = Append(@, ev.n)]})
    [] OTHER -> {}
\* Handles of channels and shared futures: h is the object of every handle (-1: let go or disconnected);
\* s.up is the set of weak ones.
Strong(s, o) == Cardinality({i \in 1 .. Len(s.h) : s.h[i] = o /\ (i - 1) \notin s.up})
Weak(s, o) == Cardinality({i \in 1 .. Len(s.h) : s.h[i] = o /\ (i - 1) \in s.up})
Add(s, ev, o) == If(ev.h = Len(s.h), {[s EXCEPT !.h = Append(@, o), !.up = IF ev.r THEN @ \cup {ev.h} ELSE @]})
Ident(s, ev) ==
  CASE ev.op = "new" -> Add(s, ev, ev.o)
    [] ev.op = "clone" -> If(ev.r = (ev.x \in s.up), Add(s, ev, Of(s, ev.x)))
    [] ev.op = "weak" -> If(ev.r, Add(s, ev, Of(s, ev.x)))
    [] ev.op = "up" -> If(~ev.r /\ Strong(s, Of(s, ev.x)) > 0, Add(s, ev, Of(s, ev.x)))
    [] ev.op = "noup" -> If(Strong(s, Of(s, ev.h)) = 0, {s})
    [] ev.op = "gone" -> {Gone(s, ev.h)}
    [] ev.op = "count" -> If(ev.x = Strong(s, Of(s, ev.h)) /\ ev.o = Weak(s, Of(s, ev.h)), {s})
    [] ev.op = "same" -> If(ev.r = (Of(s, ev.h) = Of(s, ev.x) /\ Of(s, ev.h) # -1), {s})
    [] ev.op = "hash" -> If(ev.r = (Of(s, ev.h) = Of(s, ev.x)), {s})
    [] OTHER -> {}
KExtra(c, s, ev) ==
  CASE ev.e = "obj" -> If(ev.o = Len(s.tag), {[s EXCEPT !.tag = Append(@, ev.tag), !.r = Append(@, 0), !.v = Append(@, 0)]})
    [] ev.e = "op" -> Op(s, ev)
    [] ev.e = "id" -> Ident(s, ev)
    [] ev.e = "see" -> If(See(s, ev), {s})
    [] ev.e = "spawned" -> Spawned(c, s, ev)
    [] ev.e = "ran" -> If(c.k = "via" /\ s.t # <<>> /\ Head(s.t) = ev.i, {[s EXCEPT !.t = Tail(@)]})
    [] ev.e = "pw" -> If(ev.p = (ev.op = "wake"), {s})
    [] OTHER -> {}
KRet(c, s, ev) == CASE ev.r = "ok" -> {s} [] ev.r = "none" -> If(c.k = "via" => s.t = <<>>, {s}) [] OTHER -> {}
KNo(c, s, k) == FALSE
KNone(c, s, ev) == {}
KFalse(c, s) == FALSE
KEmpty(c, s) == {}
=============================================================================
