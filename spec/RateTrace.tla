----------------------------- MODULE RateTrace -----------------------------
(* Judges recorded rate histories. *)
EXTENDS RateObs, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP

VARIABLES tid, i, st
vars == <<tid, i, st>>
View == <<tid, i>>

Init == /\ tid \in 1..Len(Traces)
        /\ i = 0
        /\ st = RInitObs(Traces[tid])

Next == /\ i < Len(Traces[tid].ev)
        /\ i' = i + 1
        /\ tid' = tid
        /\ st' = RStep(Traces[tid], st, Traces[tid].ev[i + 1])

Spec == Init /\ [][Next]_vars

PropertyHolds == \A x \in st.o.v : x[1] # Prop
Alias == [tid |-> tid, job |-> Traces[tid].job, i |-> i, v |-> st.o.v]
\* For debugging: print what each trace violates
Report == (i = Len(Traces[tid].ev) /\ st.o.v # {}) => PrintT(<<"V", Traces[tid].job, st.o.v>>)
=============================================================================
