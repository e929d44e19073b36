-------------------------------- MODULE Lin --------------------------------
(* Trace validation for objects used concurrently.                          *)
(* A trace is a totally ordered log of calls, returns and end-of-run        *)
(* observations recorded from the real code. The abstract effect of a call  *)
(* (one or more silent steps, see Apply) may take place anywhere between    *)
(* its call and its return; a trace is accepted iff some placement of the   *)
(* silent steps explains every recorded result.                             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS InitSt(_),            \* cfg |-> initial abstract state
          Apply(_, _, _, _),    \* (state, thread, call event, phase) |-> set of <<state', phase'>>; phase' = 9 : complete
          Observe(_, _),        \* (state, observation event) |-> set of states after it; {}: not allowed
          StInv(_)              \* invariant of abstract states
ASSUME TLCSet(1, 0)
Traces == ndJsonDeserialize(IOEnv.TRACE)
Debug == IOEnv.TDEBUG = "1"
VARIABLES tid, l, st, pend
vars == <<tid, l, st, pend>>
Ev == Traces[tid].ev
Thr == 0 .. (Traces[tid].cfg.n - 1)
Idle == [i |-> 0, ph |-> 0]
TInit == /\ tid \in 1 .. Len(Traces)
         /\ l = 1
         /\ st = InitSt(Traces[tid].cfg)
         /\ pend = [t \in Thr |-> Idle]
More == l >= 1 /\ l <= Len(Ev)
CallEv == /\ More /\ Ev[l].e = "call"
          /\ pend[Ev[l].t].i = 0
          /\ pend' = [pend EXCEPT ![Ev[l].t] = [i |-> l, ph |-> 0]]
          /\ l' = l + 1 /\ UNCHANGED <<tid, st>>
\* Effects are placed as late as possible: just before a return or an observation.
Silent == /\ More /\ Ev[l].e # "call"
          /\ \E t \in Thr :
               /\ pend[t].i # 0 /\ pend[t].ph # 9
               /\ \E r \in Apply(st, t, Ev[pend[t].i], pend[t].ph) :
                    /\ StInv(r[1])
                    /\ st' = r[1]
                    /\ pend' = [pend EXCEPT ![t].ph = r[2]]
          /\ UNCHANGED <<tid, l>>
RetEv == /\ More /\ Ev[l].e = "ret"
         /\ pend[Ev[l].t].ph = 9
         /\ pend' = [pend EXCEPT ![Ev[l].t] = Idle]
         /\ l' = l + 1 /\ UNCHANGED <<tid, st>>
ObsEv == /\ More /\ Ev[l].e \notin {"call", "ret"}
         /\ \E s \in (IF Ev[l].e = "blocked" /\ Ev[l].op = "hold" THEN {st} ELSE Observe(st, Ev[l])) : StInv(s) /\ st' = s
         /\ l' = l + 1 /\ UNCHANGED <<tid, pend>>
\* A state that only a listed known finding (known_findings.json) leads to carries its name.
Kf == IF "kf" \in DOMAIN st THEN st.kf ELSE ""
Accept == /\ l > Len(Ev)
          /\ IF Kf = "" THEN PrintT(<<"ACCEPT", tid>>) ELSE PrintT(<<"KNOWN", tid, Kf>>)
          /\ l' = 0 /\ UNCHANGED <<tid, st, pend>>
TNext == CallEv \/ Silent \/ RetEv \/ ObsEv \/ Accept
TSpec == TInit /\ [][TNext]_vars
Progress == IF Debug THEN PrintT(<<"AT", tid, l>>) ELSE TRUE
=============================================================================
