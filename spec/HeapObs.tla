------------------------------ MODULE HeapObs ------------------------------
(***************************************************************************)
(* The allocator's contract as a state machine: a ledger of live blocks.   *)
(* ev:  a block i obtained with size s and alignment l                     *)
(*      f block i released, stating size s and alignment l                 *)
(*      d block i released again   b something else released               *)
(*      o written beyond the end of block i                                *)
(*      w from here on, only irregular operations are listed individually  *)
(*      q everything belonging to connection number k is gone: n blocks    *)
(*        (m bytes) are live                                               *)
(*      r the same, but the application still holds its handle of every    *)
(*        connection so far, and has used it after the end                 *)
(*      E every object was dropped: n blocks (m bytes) are live            *)
(*      P the code under test panicked (its objects may be lost)           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

HInit == [ live |-> <<>>, full |-> TRUE, q |-> <<>>, panic |-> FALSE, v |-> {} ]

Bad(st, c, prop, what) == IF c THEN [st EXCEPT !.v = @ \cup {<<prop, what>>}] ELSE st
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

Alloc(st, ev) == Bad([st EXCEPT !.live = (ev.i :> <<ev.s, ev.l>>) @@ @], ev.i \in DOMAIN st.live, "C19", <<"block obtained twice", ev.i>>)

Free(st, ev) ==
  IF ev.i \notin DOMAIN st.live THEN Bad(st, TRUE, "C19", <<"released a block which is not live", ev.i>>)
  ELSE [Bad(st, st.live[ev.i] # <<ev.s, ev.l>>, "C19", <<"released with layout", <<ev.s, ev.l>>, "obtained with", st.live[ev.i]>>) EXCEPT
         !.live = Without(@, ev.i)]

(* Like connections, one after the other, must not accumulate memory *)
Quiet(st, ev) ==
  LET q  == Append(st.q, <<ev.n, ev.m>>)
      k  == Len(q)
      h  == k \div 2
  IN Bad([st EXCEPT !.q = q],
         k >= 12 /\ MaxOf({ q[j][1] : j \in 1..h }) < q[k][1] /\ MaxOf({ q[j][2] : j \in 1..h }) < q[k][2],
         "C19", <<"memory of ended connections accumulates", q>>)

(* A handle retains no more than itself: the connection was dropped *)
Held(st, ev) ==
  LET q  == Append(st.q, <<ev.n, ev.m>>)
      k  == Len(q)
  IN Bad([st EXCEPT !.q = q],
         k >= 8 /\ (q[k][1] > q[4][1] + 4 * (k - 4) \/ q[k][2] > q[4][2] + 4096 * (k - 4)),
         "C19", <<"handles of ended connections retain memory", q>>)

HEnd(st, ev) ==
  IF st.panic THEN st ELSE
  Bad(st, ev.n # 0 \/ (st.full /\ st.live # <<>>), "C19", <<"not released after teardown: blocks", ev.n, "bytes", ev.m>>)

HStep(st, ev) ==
  CASE ev.e = "a" -> Alloc(st, ev)
    [] ev.e = "f" -> Free(st, ev)
    [] ev.e = "d" -> Bad(st, TRUE, "C19", <<"released twice", ev.i>>)
    [] ev.e = "b" -> Bad(st, TRUE, "C19", <<"released something that was never obtained">>)
    [] ev.e = "o" -> Bad(st, TRUE, "C19", <<"written beyond the end of block", ev.i>>)
    [] ev.e = "w" -> [st EXCEPT !.full = FALSE]
    [] ev.e = "q" -> Quiet(st, ev)
    [] ev.e = "r" -> Held(st, ev)
    [] ev.e = "E" -> HEnd(st, ev)
    [] ev.e = "P" -> Bad([st EXCEPT !.panic = TRUE], TRUE, "C03", <<"panic">>)
    [] ev.e = "H" -> Bad([st EXCEPT !.panic = TRUE], TRUE, "C03", <<"call does not return">>)
    [] OTHER -> st

Violates(st, prop) == \E x \in st.v : x[1] = prop
=============================================================================
