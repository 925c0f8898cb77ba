------------------------------ MODULE AsmObs ------------------------------
(***************************************************************************)
(* Observer of a receiver fed by a scripted sender.                        *)
(* cfg: pk    - <<channel, mode, length, fragments, parent>> by uid; the   *)
(*              parent is the Reliable packet of the same channel which    *)
(*              precedes the packet, or 0                                  *)
(*      kind  - "asm"/"big": the sender respects the receiver's limits     *)
(*              "hold": its packets are consistent, but too many           *)
(*              "flood": arbitrary frames                                  *)
(*      limit - receive allocation, rounded up to whole fragments          *)
(*      slack - allowance for receive state other than packet data         *)
(* ev:  F genuine fragments consumed by the next step                      *)
(*      X step done: packets delivered v, bytes m held by the receiver     *)
(*      C connection ended   E end   P panic   H call does not return      *)
(*      A packets d given up by the sender (a sync frame passed them)      *)
(*      W packets which were only counted: sent, delivered, altered        *)
(*      Z sender at rest: send_buffer_size n; stuck: it never came to rest *)
(* Fragments which contradict the first one seen, copies and fragments     *)
(* outside of the window are not listed: they must not matter.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

RE == 3
Frag == 1448
Ch(cfg, u) == cfg.pk[u][1]
Mode(cfg, u) == cfg.pk[u][2]
Size(cfg, u) == cfg.pk[u][3]
NF(cfg, u) == cfg.pk[u][4]
Parent(cfg, u) == cfg.pk[u][5]
FragSize(cfg, u, f) == IF f = NF(cfg, u) - 1 THEN Size(cfg, u) - f * Frag ELSE Frag

RInit(cfg) ==
  [ have |-> [u \in 1..Len(cfg.pk) |-> {}],     \* fragments received
    old  |-> [u \in 1..Len(cfg.pk) |-> 0],      \* bytes received before the latest step
    new  |-> [u \in 1..Len(cfg.pk) |-> 0],      \* and since
    out  |-> {},                                \* packets delivered
    top  |-> 0,                                 \* the latest one of them
    ab   |-> {},                                \* given up by the sender
    intime |-> {},                              \* completed before any later packet was delivered
    last |-> [c \in 0..63 |-> 0],
    v    |-> {} ]

Bad(st, c, prop, what) == IF c THEN [st EXCEPT !.v = @ \cup {<<prop, what>>}] ELSE st

Complete(cfg, st, u) == Cardinality(st.have[u]) = NF(cfg, u)

Frags(cfg, st, ev) ==
  LET s1 == FoldLeft(LAMBDA s, d : IF d[2] \in s.have[d[1]] THEN s
                         ELSE [s EXCEPT !.have[d[1]] = @ \cup {d[2]}, !.new[d[1]] = @ + FragSize(cfg, d[1], d[2])], st, ev.d)
  IN [s1 EXCEPT !.intime = @ \cup { u \in { ev.d[j][1] : j \in 1..Len(ev.d) } : Complete(cfg, s1, u) /\ u > st.top }]

Deliver(cfg, st, u) ==
  IF u = 0 THEN (IF cfg.kind = "flood" THEN st
                 ELSE Bad(Bad(st, TRUE, "C04", <<"delivered contents differ from every packet sent">>), TRUE, "C01", <<"altered contents">>)) ELSE
  LET c  == Ch(cfg, u)
      p  == Parent(cfg, u)
      s1 == Bad(st, ~Complete(cfg, st, u), "C04", <<"delivered before every fragment arrived", u>>)
      s2 == Bad(s1, u \in st.out, "C01", <<"delivered twice", u>>)
      s3 == Bad(s2, u < st.last[c], "C01", <<"delivered out of order", u>>)
      s4 == Bad(s3, cfg.kind # "hold" /\ p # 0 /\ p \notin st.out, "C02", <<"Reliable packet skipped by", u>>)
  IN [s4 EXCEPT !.out = @ \cup {u}, !.top = IF u > @ THEN u ELSE @, !.last[c] = IF u > @ THEN u ELSE @]

Step(cfg, st, ev) ==
  LET s1   == FoldLeft(LAMBDA s, u : Deliver(cfg, s, u), st, ev.v)
      now  == { ev.v[j] : j \in 1..Len(ev.v) } \ {0}
      held == FoldSet(LAMBDA u, a : a + st.old[u], 0, now)
      s2   == Bad(s1, held > cfg.limit, "C06", <<"packet data held", held, "limit", cfg.limit>>)
      s3   == Bad(s2, ev.m > cfg.limit + cfg.slack, "C06", <<"memory held", ev.m, "limit", cfg.limit>>)
  IN [s3 EXCEPT !.old = [u \in DOMAIN @ |-> @[u] + st.new[u]], !.new = [u \in DOMAIN @ |-> 0]]

End(cfg, st) ==
  IF cfg.kind \notin {"asm", "big"} THEN st ELSE
  LET due == { u \in 1..Len(cfg.pk) : Complete(cfg, st, u) /\ u \notin st.out \cup st.ab /\ (Parent(cfg, u) = 0 \/ Parent(cfg, u) \in st.out)
                                      /\ u > st.last[Ch(cfg, u)]
                                      \* others may be abandoned once the window has moved past them
                                      /\ (Mode(cfg, u) = RE \/ u \in st.intime) }
  IN FoldSet(LAMBDA p, s : Bad(s, due # {}, p, <<"complete, but never delivered", due>>), st, {"C04", "C06", "C02"})

RStep(cfg, st, ev) ==
  CASE ev.e = "F" -> Frags(cfg, st, ev)
    [] ev.e = "X" -> Step(cfg, st, ev)
    [] ev.e = "C" -> Bad(st, TRUE, "C03", <<"connection ended", ev.t>>)
    [] ev.e = "A" -> [st EXCEPT !.ab = { ev.d[j] : j \in 1..Len(ev.d) }]
    [] ev.e = "W" -> Bad(Bad(st, ev.got > ev.sent \/ ev.bad > 0, "C01", <<"delivered more often than sent, or altered", ev.got - ev.sent, ev.bad>>),
                         ev.got < ev.sent, "C04", <<"complete, but never delivered", ev.sent - ev.got>>)
    [] ev.e = "Z" -> IF ev.n # 0 \/ ev.stuck
                       THEN FoldSet(LAMBDA p, s : Bad(s, TRUE, p, <<"send buffer never empty", ev.n>>), st, {"C02", "C20", "C11"}) ELSE st
    [] ev.e = "E" -> End(cfg, st)
    [] ev.e = "P" -> [st EXCEPT !.v = @ \cup { <<p, <<"panic", ev.m>> >> : p \in {"C03", "C04", "C06"} }]
    [] ev.e = "H" -> [st EXCEPT !.v = @ \cup { <<p, <<"call does not return">> >> : p \in {"C03", "C04", "C06"} }]
    [] OTHER -> st

Violates(st, prop) == \E x \in st.v : x[1] = prop
=============================================================================
