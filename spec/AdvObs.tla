------------------------------- MODULE AdvObs -------------------------------
(***************************************************************************)
(* What an endpoint may do in response to the behaviours of Adversary.tla: *)
(* every call returns, normally, after a bounded amount of work, and       *)
(* whoever behaves is still served.                                        *)
(* ev: A one action; the longest call took c milliseconds of CPU time      *)
(*     Z at the end: honest clients connected before / anew got (1) or did *)
(*       not get (0) an answer from the server; -1 when not applicable     *)
(*     P panic   H a call did not return                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Limit == 3000

VInit == [ v |-> {} ]
Bad(st, c, what) == IF c THEN [st EXCEPT !.v = @ \cup {<<"C03", what>>}] ELSE st

VStep(st, ev) ==
  CASE ev.e = "A" -> Bad(st, ev.c > Limit, <<"a call worked for", ev.c, "ms">>)
    [] ev.e = "Z" -> Bad(Bad(Bad(st, ev.c > Limit, <<"a call worked for", ev.c, "ms">>),
                             ev.old = 0, <<"an honest client is no longer served">>),
                         ev.new = 0, <<"a new client cannot connect">>)
    [] ev.e = "P" -> Bad(st, TRUE, <<"panic", ev.m>>)
    [] ev.e = "H" -> Bad(st, TRUE, <<"a call does not return">>)
    [] OTHER -> Bad(st, TRUE, <<"unknown event", ev.e>>)
=============================================================================
