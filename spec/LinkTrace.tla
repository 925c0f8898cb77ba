----------------------------- MODULE LinkTrace -----------------------------
(* Judges recorded half traces with the Link observer. *)
EXTENDS LinkObs, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP

VARIABLES tid, i, st
vars == <<tid, i, st>>
View == <<tid, i>>

Init == /\ tid \in 1..Len(Traces)
        /\ i = 0
        /\ st = LInit(Traces[tid])

Next == /\ i < Len(Traces[tid].ev)
        /\ i' = i + 1
        /\ tid' = tid
        /\ st' = LStep(Traces[tid], st, Traces[tid].ev[i + 1])

Spec == Init /\ [][Next]_vars

PropertyHolds == ~Violates(st, Prop)
Alias == [tid |-> tid, job |-> Traces[tid].job, dir |-> Traces[tid].dir, i |-> i, v |-> st.v]
\* For debugging: print what each trace violates
Report == (i = Len(Traces[tid].ev) /\ st.v # {}) => PrintT(<<"V", Traces[tid].job, Traces[tid].dir, st.v>>)
=============================================================================
