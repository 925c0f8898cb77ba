------------------------------- MODULE RateObs -------------------------------
(***************************************************************************)
(* Judges recorded executions by the TFRC observer (property C14).         *)
(*                                                                         *)
(* fam "R": the rate computation by itself.  Events: N frame sent,         *)
(*   F step with feedback, W step without (reals as <<high, low>> halves). *)
(* fam "L": one direction of a connection.  The observer derives the       *)
(*   feedback itself, from the frames sent (D) and the acknowledgements    *)
(*   consumed (A): RTT samples, and the loss event rate of section 5 with  *)
(*   NDUPACK = 3; X shows the sender after a step.                         *)
(***************************************************************************)
EXTENDS Tfrc

Has(r, f) == f \in DOMAIN r
Cfg(tr) == RInt(tr.rate)
RInitObs(tr) ==
  [ o |-> OInit(Cfg(tr)),
    fr |-> <<>>,          \* frames sent: [t, n, a] by relative id + 1
    lb |-> 0,             \* frames before this have been forgotten
    rb |-> 0,             \* frames before this are known to be received or lost
    seen |-> {},          \* later frames received
    iv |-> <<>>,          \* loss intervals
    pend |-> -1,          \* latest transmission time newly acknowledged since the latest step
    sn |-> 0, sx |-> Zero, \* consecutive feedbacks while the rate holds back a backlog; the rate at the first
    m |-> -1 ]            \* RTO shown after the latest step

Unit(st, ev) ==
  CASE ev.e = "N" -> [st EXCEPT !.o = OSent(@, ev.t)]
    [] ev.e = "F" -> [st EXCEPT !.o = OFeedback(@, ev.t, ev.r, ev.v, ev.p, ev.l = 1, ev.x, ev.q, ev.m, ev.ps, TRUE)]
    [] ev.e = "W" -> [st EXCEPT !.o = OSilent(@, ev.t, ev.x, ev.q, ev.m)]
    [] OTHER -> st

-----------------------------------------------------------------------------
RttMs(st) == IF st.o.rtt = <<>> THEN 100 ELSE Ms(st.o.rtt)

(* Decides frames in order: received, or lost once three later ones were received (or the sender forgets them) *)
RECURSIVE Settle(_, _)
Settle(st, upto) ==
  IF st.rb \in st.seen THEN Settle([st EXCEPT !.iv = Ack1(@), !.rb = @ + 1, !.seen = @ \ {st.rb}], upto)
  ELSE IF Cardinality(st.seen) >= 3 \/ st.rb < upto
       THEN Settle([st EXCEPT !.iv = Nack1(@, st.fr[st.rb + 1].t, RttMs(st)), !.rb = @ + 1], upto)
       ELSE st

Put(st, id) ==
  IF st.fr[id + 1].a THEN st ELSE
  LET s1 == [st EXCEPT !.fr[id + 1].a = TRUE, !.pend = IF @ > st.fr[id + 1].t THEN @ ELSE st.fr[id + 1].t] IN
  IF id < st.rb THEN s1 ELSE Settle([s1 EXCEPT !.seen = @ \cup {id}], 0)

Group(st, g) ==
  LET base == g[1]  offs == g[2] IN
  IF offs = <<>> \/ base < st.lb \/ base + offs[Len(offs)] >= Len(st.fr) THEN st
  ELSE IF FoldLeft(LAMBDA a, k : (a + st.fr[base + k + 1].n) % 2, 0, offs) # g[3] THEN st
  ELSE FoldLeft(LAMBDA s, k : Put(s, base + k), st, offs)

(* C11: a sender which has much to send, and which the throughput equation would allow eight times
   its rate, gets faster as feedback without further loss arrives; it is not pinned where it is. *)
Held(st, o2, ev, p, x) ==
  LET more == IF o2.mode = "eqn" THEN RMin(Eqn(o2.rtt, p), o2.cap) ELSE o2.cap
      low  == ev.b >= 20000 /\ RLe(RMul(x, o2.rtt), RInt(5000)) /\ RLe(RMul(RInt(8), x), more) /\ RLe(p, st.o.p)
      sn   == IF low THEN st.sn + 1 ELSE 0
      sx   == IF sn <= 1 THEN x ELSE st.sx
  IN [st EXCEPT !.sn = sn, !.sx = sx,
                !.o = IF sn >= 30 /\ RLt(x, RMul(Two, sx)) THEN [o2 EXCEPT !.v = @ \cup {<<"C11", <<"rate does not recover", ev.t, RShow(x), RShow(more)>>>>}] ELSE o2]

Step(st, ev) ==
  LET x == RInt(ev.x)
      q == IF ev.r < 0 THEN <<>> ELSE ev.qr
      \* what is older than the retransmission timeout is forgotten
      age == IF st.o.rtt = <<>> THEN IF st.m >= 0 THEN (IF st.m > 600 THEN st.m ELSE 600) ELSE 600
             ELSE LET r4 == 4 * RttMs(st) IN IF st.m > r4 THEN st.m ELSE r4
      cut == ev.t - age
      lb  == LET F[k \in Nat] == IF k < Len(st.fr) /\ st.fr[k + 1].t < cut THEN F[k + 1] ELSE k IN F[st.lb]
      s1  == IF lb > st.lb THEN Settle([st EXCEPT !.lb = lb], lb) ELSE st
      p   == LossRate(s1.iv)
      inc == s1.o.mode = "slow" /\ RLt(s1.o.p, p)
      e   == Ewma(s1.o.rtt, RQ(ev.t - st.pend, 1000))
  IN IF ev.x < 0
     THEN \* the rate cannot be seen, only the RTT estimate
          LET want == IF st.pend < 0 THEN st.o.rtt ELSE e IN
          [s1 EXCEPT !.o = [OBad(@, want # <<>> /\ (q = <<>> \/ ~NearRel(q, want)), <<"RTT estimate">>) EXCEPT !.rtt = want], !.pend = -1]
     ELSE IF st.pend < 0 THEN [s1 EXCEPT !.o = OSilent(@, ev.t, x, q, ev.m), !.m = ev.m, !.sn = IF ev.b < 20000 THEN 0 ELSE @]
     ELSE LET o2  == OFeedback(s1.o, ev.t, ev.t - st.pend, <<>>, p, FALSE, x, q, ev.m, <<>>, FALSE)
              \* Section 6.3.1: from the first loss on, the loss history is that which yields the target rate
              tgt == IF s1.o.first THEN RDiv(RInt(736), e) ELSE RMul(s1.o.x, RQ(1, 2))
              len == RDiv(One, RMax(EqnInv(e, RMul(tgt, RQ(107, 100))), RQ(1, 1000000000)))
          IN [Held(s1, o2, ev, p, x) EXCEPT !.pend = -1, !.m = ev.m,
                        !.iv = IF inc THEN <<[e |-> @[1].e, n |-> RAdd(len, One)]>> ELSE @]

Conn(st, ev) ==
  CASE ev.e = "D" -> [st EXCEPT !.o = OSent(@, ev.t),
                                !.fr = IF ev.f = Len(@) THEN Append(@, [t |-> ev.t, n |-> ev.n, a |-> FALSE]) ELSE @]
    [] ev.e = "A" -> FoldLeft(Group, st, ev.g)
    [] ev.e = "X" -> IF ev.h = 1 THEN Step(st, ev) ELSE st
    [] OTHER -> st

RStep(tr, st, ev) ==
  IF ev.e = "P" THEN [st EXCEPT !.o = OBad(@, TRUE, <<"panic", ev.m>>)]
  ELSE IF tr.fam = "R" THEN Unit(st, ev) ELSE Conn(st, ev)
=============================================================================
