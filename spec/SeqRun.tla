------------------------------- MODULE SeqRun ------------------------------
(* Trace validation for combinators (see SeqCore).                          *)
EXTENDS SeqStep, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
Debug == IOEnv.TDEBUG = "1"
VARIABLES tid, l, st
vars == <<tid, l, st>>
Ev == Traces[tid].ev
Cfg == Traces[tid].cfg
TInit == tid \in 1 .. Len(Traces) /\ l = 1 /\ st = SInit(Traces[tid].cfg)
Consume == /\ l >= 1 /\ l <= Len(Ev)
           /\ \E s \in Step(Cfg, st, Ev[l]) : st' = s
           /\ l' = l + 1 /\ UNCHANGED tid
Accept == /\ l > Len(Ev) /\ PrintT(<<"ACCEPT", tid>>) /\ l' = 0 /\ UNCHANGED <<tid, st>>
TNext == Consume \/ Accept
TSpec == TInit /\ [][TNext]_vars
Progress == IF Debug THEN PrintT(<<"AT", tid, l>>) ELSE TRUE
=============================================================================
