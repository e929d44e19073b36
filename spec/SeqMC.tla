------------------------------- MODULE SeqMC -------------------------------
(* Design model of a combinator's machine: TLC lets the inputs and closures *)
(* answer anything, the owner poll at any time, and compares everything the *)
(* machine may return with the declarative meaning of the combinator, a     *)
(* function of the log of answers alone.                                    *)
EXTENDS SeqStep
If2(b, x) == IF b THEN <<x>> ELSE <<>>
OneOp(c, s, g) == {""}
IsPrefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
RECURSIVE Fold(_, _, _)
Fold(F(_, _), acc, s) == IF s = <<>> THEN acc ELSE Fold(F, F(acc, Head(s)), Tail(s))
CONSTANTS Cfgs,             \* configurations explored
          MaxLog,           \* bound on answers + outputs
          Ops(_, _, _),     \* (cfg, st, log): operations the owner may poll for
          Env(_, _, _)      \* (cfg, st, log): what may happen while the combinator is being polled
VARIABLES cfg, st, log, pol, quiet, over
vars == <<cfg, st, log, pol, quiet, over>>
Init == cfg \in Cfgs /\ st = SInit(cfg) /\ log = <<>> /\ pol = FALSE /\ quiet = FALSE /\ over = FALSE
Poll == /\ ~pol /\ ~over /\ \E o \in Ops(cfg, st, log) : \E s \in Step(cfg, st, [e |-> "poll", op |-> o]) : st' = s
        /\ pol' = TRUE /\ quiet' = FALSE /\ UNCHANGED <<cfg, log, over>>
Wake == /\ ~pol /\ ~over /\ \E k \in st.pend : \E s \in Step(cfg, st, [e |-> "wake", k |-> k, ok |-> TRUE]) : st' = s
        /\ quiet' = FALSE /\ UNCHANGED <<cfg, log, pol, over>>
Happen == /\ pol /\ Len(log) < MaxLog
          /\ \E ev \in Env(cfg, st, log) : \E s \in Step(cfg, st, ev) :
               /\ st' = s
               /\ log' = IF ev.r = "pend" THEN log ELSE Append(log, ev @@ [op |-> st.op])
               /\ pol' = (ev.e # "ret")
               /\ quiet' = (ev.e = "ret" /\ ev.r = "pend")
               /\ over' = (ev.e = "ret" /\ ev.r \in {"none", "val"})
          /\ UNCHANGED cfg
Next == Poll \/ Wake \/ Happen
Spec == Init /\ [][Next]_vars
\* The machine never refuses everything: the combinator can always go on or return.
Able == pol => \E ev \in Env(cfg, st, log) : (ev.e = "ret" \/ ev.r # "pend") /\ Step(cfg, st, ev) # {}
\* What the log says.
Rets == SelectSeq(log, LAMBDA e : e.e = "ret")
Outs == [i \in 1 .. Len(Rets) |-> Out(Rets[i].r, Rets[i].v)]
Yielded == SelectSeq(Outs, LAMBDA x : x.r # "none")
Said(k) == SelectSeq(log, LAMBDA e : e.e \in {"src", "fut"} /\ e.k = k)
Gone(k) == \E i \in 1 .. Len(log) : log[i].e \in {"src", "fut"} /\ log[i].k = k /\ log[i].r = "end"
Calls == SelectSeq(log, LAMBDA e : e.e = "call")
Src(k, r, v) == [e |-> "src", k |-> k, r |-> r, v |-> v]
Fut(k, r, v) == [e |-> "fut", k |-> k, r |-> r, v |-> v]
Call(f, a, v) == [e |-> "call", f |-> f, a |-> a, v |-> v, r |-> "ok"]
RetE(r, v) == [e |-> "ret", r |-> r, v |-> v, sw |-> FALSE]
Fresh == Len(log) + 1
\* Only what the machine says it owes can be accepted; asking for it is enough.
Owed(s) == {RetE("pend", <<>>), RetE("none", <<>>)} \cup If(s.q # <<>>, {RetE(Head(s.q).r, Head(s.q).v)})
It(v) == Out("item", v)
Er(v) == Out("err", v)
Val(v) == Out("val", v)
ConcatAll(ss) == Fold(LAMBDA a, b : a \o b, <<>>, ss)
PerElem(s, F(_)) == ConcatAll([i \in 1 .. Len(s) |-> F(s[i])])
\* longest prefix all of whose elements satisfy P
LeadLen(s, P(_)) == CHOOSE n \in 0 .. Len(s) : (\A i \in 1 .. n : P(s[i])) /\ (n < Len(s) => ~P(s[n + 1]))
=============================================================================
