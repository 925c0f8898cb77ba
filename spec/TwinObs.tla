------------------------------ MODULE TwinObs ------------------------------
(***************************************************************************)
(* C15 as a property of two runs of the same transfer under the same       *)
(* network and the same application: run b additionally receives           *)
(* acknowledgements.  This module decides for each of them, from the       *)
(* frames the endpoint sent and the acknowledgements it consumed, whether  *)
(* it may have an effect:                                                  *)
(*   - a group over frames all of which were sent, with the parity of      *)
(*     their nonces, is Genuine; it may have an effect the first time      *)
(*   - window bases may have an effect if they lie ahead of those consumed *)
(*     and not beyond what was sent                                        *)
(* As long as nothing added may have an effect the two runs must agree, at *)
(* every step, in every byte sent by both endpoints, their RTT estimates,  *)
(* send buffer sizes and allowed rates.                                    *)
(* ev: D the endpoint sent frame f with nonce n; packets below p began     *)
(*     K acknowledgement of the peer, consumed in both runs                *)
(*     I added in run b only    J groups as consumed by b in place of K's  *)
(*     X one step: what was observed in both runs    E end (n added)       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

TInit == [ nc |-> <<>>, np |-> 0, fb |-> 0, pb |-> 0, seen |-> {}, pure |-> TRUE, inj |-> 0, v |-> {} ]

Bad(st, c, what) == IF c THEN [st EXCEPT !.v = @ \cup {<<"C15", what>>}] ELSE st
Max2(a, b) == IF a > b THEN a ELSE b

Parity(st, g) == FoldLeft(LAMBDA a, o : (a + st.nc[g[1] + o + 1]) % 2, 0, g[2])
Known(st, g) == g[1] >= 0 /\ g[1] + g[2][Len(g[2])] < Len(st.nc)
Genuine(st, g) == g[2] # <<>> /\ Known(st, g) /\ Parity(st, g) = g[3]
MayAct(st, g) == Genuine(st, g) /\ g \notin st.seen
BasesMayAct(st, ev) == (ev.fb > st.fb /\ ev.fb <= Len(st.nc)) \/ (ev.pb > st.pb /\ ev.pb <= st.np)

Sent(st, ev) == IF ev.f # Len(st.nc) THEN [st EXCEPT !.np = Max2(@, ev.p)] ELSE [st EXCEPT !.nc = Append(@, ev.n), !.np = Max2(@, ev.p)]

Consumed(st, ev) ==
  [st EXCEPT !.seen = @ \cup { ev.g[k] : k \in { j \in 1..Len(ev.g) : Genuine(st, ev.g[j]) } },
             !.fb = IF ev.fb <= Len(st.nc) THEN Max2(@, ev.fb) ELSE @,
             !.pb = IF ev.pb <= st.np THEN Max2(@, ev.pb) ELSE @]

Added(st, ev, bases) ==
  [st EXCEPT !.inj = @ + 1,
             !.pure = @ /\ ~(bases /\ BasesMayAct(st, ev)) /\ \A k \in 1..Len(ev.g) : ~MayAct(st, ev.g[k])]

Step2(st, ev) == Bad([st EXCEPT !.pure = @ /\ ev.a = ev.b], st.pure /\ ev.a # ev.b, <<"ineffective acknowledgements made a difference", ev.a, ev.b>>)

TStep(st, ev) ==
  CASE ev.e = "D" -> Sent(st, ev)
    [] ev.e = "K" -> Consumed(st, ev)
    [] ev.e = "I" -> Added(st, ev, TRUE)
    [] ev.e = "J" -> Added(st, ev, FALSE)
    [] ev.e = "X" -> Step2(st, ev)
    [] ev.e = "E" -> [st EXCEPT !.v = @ \cup (IF st.pure \/ st.v # {} THEN {} ELSE {<<"HARNESS", <<"an injection may have an effect">>>>})]
    [] ev.e \in {"P", "H"} -> [st EXCEPT !.v = @ \cup {<<"C15", <<"panic or hang">>>>, <<"C03", <<"panic or hang">>>>}]
    [] OTHER -> Bad(st, TRUE, <<"unknown event", ev.e>>)
=============================================================================
