------------------------------ MODULE SeqCore ------------------------------
(* Common part of the specifications of combinators that one task polls.    *)
(* A combinator is a machine that consumes what its inputs and closures     *)
(* answer and thereby comes to owe outputs (q) or its end (fin). A trace of *)
(* the real code is the totally ordered log of polls of the combinator and  *)
(* of everything it asked of its inputs in between.                         *)
(*   src/fut   input k was polled and answered r (v)                        *)
(*   call      a user closure was called with a and answered r (v)          *)
(*   poll/ret  the combinator was polled / returned                         *)
(*   wake      input k's waker was woken; ok: the latest outer waker was    *)
(*   hint/term size hint / termination flag, with the number of items that  *)
(*             really were yielded afterwards                               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
Range(s) == {s[i] : i \in 1 .. Len(s)}
Max2(a, b) == IF a > b THEN a ELSE b
\* q: outputs owed; fin: nothing but the end is owed after q; pend: inputs that answered pending and hold a waker;
\* over: finished inputs; ans: inputs asked during this poll; op: operation polled; stg: what the machine is doing; cur/fid: item and closure future in progress; rest per kind
Core0 == [q |-> <<>>, fin |-> FALSE, pend |-> {}, over |-> {}, stg |-> "idle", cur |-> 0, fid |-> -1, n |-> 0, s |-> <<>>, t |-> <<>>, b |-> FALSE, set |-> {}, last |-> -1, ans |-> {}, op |-> "", w |-> <<>>]
Out(r, v) == [r |-> r, v |-> v]
Emit(st, v) == [st EXCEPT !.q = Append(@, Out("item", v)), !.stg = "idle"]
EmitErr(st, v) == [st EXCEPT !.q = Append(@, Out("err", v)), !.stg = "idle"]
Done(st, r, v) == [st EXCEPT !.q = Append(@, Out(r, v)), !.stg = "idle", !.fin = TRUE]
Idle(st) == [st EXCEPT !.stg = "idle"]
Fin(st) == [st EXCEPT !.stg = "idle", !.fin = TRUE]
Need(st, v) == [st EXCEPT !.stg = "call", !.cur = v]
InFut(st, k) == [st EXCEPT !.stg = "fut", !.fid = k]
Quiet(st) == st.q = <<>> /\ ~st.fin
If(c, s) == IF c THEN s ELSE {}
HintOK(ev) == \/ ev.rem = -1
              \/ /\ ev.rem >= 500 /\ (ev.hi = -1 \/ ev.hi >= ev.rem - 500)
              \/ /\ ev.rem >= 0 /\ ev.rem < 500 /\ ev.lo <= ev.rem /\ (ev.hi = -1 \/ ev.rem <= ev.hi)
TermOK(cfg, ev) == (ev.v => ev.rem \in {0, -1}) /\ ((ev.aft /\ cfg.fused) => ev.v)
=============================================================================
