----------------------------- MODULE HeapTrace -----------------------------
(* Judges recorded heap operations. *)
EXTENDS HeapObs, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP

VARIABLES tid, i, st
vars == <<tid, i, st>>
View == <<tid, i>>

Init == /\ tid \in 1..Len(Traces)
        /\ i = 0
        /\ st = HInit

Next == /\ i < Len(Traces[tid].ev)
        /\ i' = i + 1
        /\ tid' = tid
        /\ st' = HStep(st, Traces[tid].ev[i + 1])

Spec == Init /\ [][Next]_vars

PropertyHolds == \A x \in st.v : x[1] # Prop
Alias == [tid |-> tid, job |-> Traces[tid].job, i |-> i, v |-> st.v]
Report == (i = Len(Traces[tid].ev) /\ st.v # {}) => PrintT(<<"V", Traces[tid].job, st.v>>)
=============================================================================
