-------------------------------- MODULE Tfrc --------------------------------
(***************************************************************************)
(* TCP Friendly Rate Control (RFC 5348) with sender-side loss estimation.  *)
(*                                                                         *)
(* First the RFC's formulas; then an observer, OStep, which judges what a  *)
(* sender shows (allowed rate X, RTT estimate, RTO) after every step       *)
(* against the bounds of property C14; then the state machine of the       *)
(* sender itself, TStep.  RateMC checks that the state machine satisfies   *)
(* the observer; RateTrace has the observer judge recorded executions.     *)
(***************************************************************************)
EXTENDS Float64, Sequences, FiniteSets, SequencesExt, TLC

S == RInt(1472)                 \* segment size
Floor == RInt(23)               \* s / t_mbi
WInit == RInt(4380)
Zero == RInt(0)
One == RInt(1)
Two == RInt(2)

(* Section 3.1: throughput of a TCP flow with round trip time r (seconds) and loss event rate p *)
Eqn(r, p) == LET f == RAdd(RSqrt(RMul(p, RQ(2, 3))),
                           RMul(RMul(RMul(RInt(12), RSqrt(RMul(p, RQ(3, 8)))), p), RAdd(One, RMul(RInt(32), RMul(p, p)))))
             IN RDiv(S, RMul(r, f))

(* Largest p, up to 1, for which Eqn(r, p) still is at least x (bisection; for x beyond reach: 1, or nearly 0) *)
EqnInv(r, x) ==
  LET step(ab, k) == LET c == RMul(RQ(1, 2), RAdd(ab[1], ab[2])) IN IF RLt(Eqn(r, c), x) THEN <<ab[1], c>> ELSE <<c, ab[2]>>
  IN FoldLeft(step, <<Zero, One>>, [k \in 1..60 |-> k])[1]

(* Section 4.3, step 2 *)
Ewma(rtt, r) == IF rtt = <<>> THEN r ELSE RAdd(RMul(RQ(9, 10), rtt), RMul(RQ(1, 10), r))

(* Section 4.3, step 3 *)
Rto(rtt, x) == RMax(RMul(RInt(4), rtt), RDiv(RInt(2944), RMax(x, One)))
Ms(r) == RRound(RMul(RInt(1000), r))

Initial(rtt) == RDiv(WInit, rtt)

(* Sections 4.3, step 4, and 4.4: the set of receive rates.  Entries are [v, t]; <<>> stands for infinity. *)
VMax(vs) == IF \E j \in 1..Len(vs) : vs[j].v = <<>> THEN <<>> ELSE FoldLeft(LAMBDA a, e : RMax(a, e.v), Zero, vs)
RecvUpdate(set, t, v, limited, inc, rttms) ==
  IF limited
  THEN LET s2 == SelectSeq(Append(set, [v |-> v, t |-> t]), LAMBDA e : t - e.t <= 2 * rttms) IN
       [set |-> s2, lim |-> IF VMax(s2) = <<>> THEN <<>> ELSE RMul(Two, VMax(s2))]
  ELSE LET fin == SelectSeq(set, LAMBDA e : e.v # <<>>)
           old == IF inc THEN [j \in 1..Len(fin) |-> [fin[j] EXCEPT !.v = RMul(@, RQ(1, 2))]] ELSE fin
           m   == RMax(VMax(old), IF inc THEN RMul(v, RQ(85, 100)) ELSE v)
       IN [set |-> <<[v |-> m, t |-> t]>>, lim |-> IF inc THEN m ELSE RMul(Two, m)]
LMin(a, lim) == IF lim = <<>> THEN a ELSE RMin(a, lim)

-----------------------------------------------------------------------------
(* Section 5: loss event rate, from the sequence of frames acknowledged (1) or lost (0), each at most once, in     *)
(* order of transmission.  An interval is [e, n]: losses of frames sent before e belong to it; n frames (a real).  *)
Ack1(iv) == IF iv = <<>> THEN iv ELSE [iv EXCEPT ![1].n = RAdd(@, One)]
Nack1(iv, sent, rttms) ==
  IF iv = <<>> \/ sent >= iv[1].e
  THEN SubSeq(<<[e |-> sent + rttms, n |-> One]>> \o iv, 1, IF Len(iv) + 1 > 9 THEN 9 ELSE Len(iv) + 1)
  ELSE [iv EXCEPT ![1].n = RAdd(@, One)]
W == <<RInt(1), RInt(1), RInt(1), RInt(1), RQ(8, 10), RQ(6, 10), RQ(4, 10), RQ(2, 10)>>
LossRate(iv) ==
  LET k == Len(iv) IN
  IF k = 0 THEN Zero
  ELSE IF k = 1 THEN RDiv(One, iv[1].n)
  ELSE LET i0 == FoldLeft(LAMBDA a, j : RAdd(a, RMul(iv[j].n, W[j])), Zero, [j \in 1..(k - 1) |-> j])
           i1 == FoldLeft(LAMBDA a, j : RAdd(a, RMul(iv[j + 1].n, W[j])), Zero, [j \in 1..(k - 1) |-> j])
           w  == FoldLeft(LAMBDA a, j : RAdd(a, W[j]), Zero, [j \in 1..(k - 1) |-> j])
       IN RDiv(w, RMax(i0, i1))

-----------------------------------------------------------------------------
(* The observer.  Bounds carry a relative slack of 1e-6, and one byte per second for rounding. *)
Leq(a, b) == RLe(a, RAdd(RMul(b, RAdd(One, RQ(1, 1000000))), One))
Near(a, b) == RLe(RSub(a, b), RQ(1, 1000000)) /\ RLe(RSub(b, a), RQ(1, 1000000))
NearRel(a, b) == LET e == RMul(RAdd(One, b), RQ(1, 1000000)) IN RLe(RSub(a, b), e) /\ RLe(RSub(b, a), e)

OInit(cap) ==
  [ cap |-> cap, mode |-> "await", x |-> RMin(S, cap), rtt |-> <<>>,
    first |-> TRUE,                            \* no feedback yet
    p |-> Zero,                                \* loss event rate of the latest feedback
    set |-> <<[v |-> <<>>, t |-> 0]>>, teq |-> <<>>,
    exp |-> 0, busy |-> FALSE,                 \* no-feedback timer; anything sent since it was set
    v |-> {} ]

OBad(o, c, what) == IF c THEN [o EXCEPT !.v = @ \cup {<<"C14", what>>}] ELSE o

OSent(o, t) ==
  IF o.mode = "await" THEN [o EXCEPT !.mode = "slow", !.exp = t + 2000, !.busy = TRUE, !.set = <<[v |-> <<>>, t |-> t]>>]
  ELSE [o EXCEPT !.busy = TRUE]

(* Whatever happens: ceiling and floor *)
Always(o, x) ==
  OBad(OBad(o, ~RLe(x, o.cap), <<"rate above the ceiling", RShow(x)>>),
       o.mode # "await" /\ ~RLe(RMin(Floor, o.cap), x), <<"rate below the floor", RShow(x)>>)

(* One feedback processed at time t: RTT sample r (ms); receive rate v (real, or <<>> if unknown); loss event rate p;   *)
(* limited; after it, rate x, RTT estimate q and RTO m (ms, or -1).  ps: loss event rate assumed from now on if this    *)
(* is the first loss (section 6.3.1), or <<>> if none was assumed; it cannot be seen unless `see'.                     *)
OFeedback(o, t, r, v, p, limited, x, q, m, ps, see) ==
  LET e   == Ewma(o.rtt, RQ(r, 1000))
      inc == RLt(o.p, p)
      u   == IF v = <<>> THEN [set |-> o.set, lim |-> <<>>] ELSE RecvUpdate(o.set, t, v, limited, inc, Ms(e) + 1)
      s1  == OBad(Always(o, x), ~NearRel(q, e), <<"RTT estimate", RShow(q), "expected", RShow(e)>>)
      \* The loss history is initialized so as to reproduce a target rate, to within 5 per cent
      bound == IF o.mode = "eqn" THEN Eqn(e, p)
               ELSE IF ~see THEN IF o.first THEN RMax(RMul(o.x, RQ(1, 2)), RDiv(RInt(736), e)) ELSE RMul(o.x, RQ(1, 2))
               ELSE RMul(Eqn(e, IF ps = <<>> THEN p ELSE ps), RQ(100, 95))
      s2  == CASE o.mode = "slow" /\ ~inc ->
                    IF o.first THEN OBad(s1, ~Leq(x, RMax(Floor, Initial(e))), <<"initial window", RShow(x)>>)
                    ELSE OBad(s1, ~RLe(x, o.x) /\ ~Leq(x, RMax(Floor, RMax(LMin(RMul(Two, o.x), u.lim), Initial(e)))), <<"slow start", RShow(o.x), RShow(x)>>)
               [] o.mode = "slow" /\ inc ->
                    OBad(s1, ~Leq(x, RMax(Floor, LMin(bound, u.lim))), <<"first loss", RShow(x), "bound", RShow(bound)>>)
               [] o.mode = "eqn" ->
                    OBad(s1, ~Leq(x, RMax(Floor, LMin(bound, u.lim))), <<"throughput equation", RShow(x), "bound", RShow(LMin(bound, u.lim))>>)
               [] OTHER -> s1
      lo  == Ms(Rto(e, RMax(x, o.x)))
      hi  == Ms(Rto(e, RMin(x, o.x)))
      s3  == OBad(s2, m >= 0 /\ (m < lo - 1 \/ m > hi + 1), <<"RTO", m, "expected", lo, hi>>)
  IN [s3 EXCEPT !.mode = IF @ = "slow" /\ inc THEN "eqn" ELSE @, !.x = x, !.rtt = e, !.first = FALSE, !.p = p, !.set = u.set, !.teq = IF o.mode = "eqn" \/ inc THEN bound ELSE @,
                !.exp = IF m >= 0 THEN t + m ELSE t + lo, !.busy = FALSE]

(* A step without feedback *)
OSilent(o, t, x, q, m) ==
  IF o.mode = "await" THEN OBad(Always(o, x), x # o.x \/ q # o.rtt, <<"state changed before anything was sent">>) ELSE
  LET due  == t >= o.exp
      half == RMul(o.x, RQ(1, 2))
      e    == IF o.rtt = <<>> THEN Zero ELSE o.rtt
      s1 == OBad(Always(o, x), q # o.rtt /\ (q = <<>> \/ o.rtt = <<>> \/ ~NearRel(q, o.rtt)), <<"RTT estimate changed without feedback">>)
      s2 == OBad(s1, ~RLe(x, o.x), <<"rate increased without feedback", RShow(o.x), RShow(x)>>)
      s3 == OBad(s2, ~due /\ RLt(x, o.x), <<"rate decreased before the no-feedback timer expired", t, o.exp>>)
      s4 == OBad(s3, ~RLe(RSub(half, Two), x), <<"no-feedback expiry more than halves", RShow(o.x), RShow(x)>>)
      s5 == OBad(s4, due /\ o.mode = "slow" /\ o.busy /\ ~RLe(x, RMax(Floor, half)), <<"no-feedback expiry keeps the rate of a busy sender", RShow(x)>>)
      w  == Ms(Rto(e, x))
      s6 == OBad(s5, due /\ m >= 0 /\ (m < w - 1 \/ m > w + 1), <<"RTO", m, "expected", w>>)
  IN IF due THEN [s6 EXCEPT !.x = x, !.exp = t + (IF m >= 0 THEN m ELSE w), !.busy = FALSE,
                            \* the rates may have been replaced by lower ones just now
                            !.set = [j \in 1..Len(@) |-> [v |-> IF o.mode = "eqn" /\ @[j].v = <<>> THEN RMax(Floor, o.teq) ELSE @[j].v, t |-> t]]]
     ELSE [s6 EXCEPT !.x = x]

-----------------------------------------------------------------------------
(* The sender itself, as RFC 5348 prescribes (with the rounding of the implementation left out) *)
TInit(cap) ==
  [ cap |-> cap, mode |-> "await", x |-> RMin(S, cap), rtt |-> <<>>, dbl |-> -1, p |-> Zero, set |-> <<[v |-> <<>>, t |-> 0]>>,
    exp |-> 0, busy |-> FALSE, teq |-> <<>>, rto |-> -1, ps |-> <<>> ]

TSent(s, t) == IF s.mode = "await" THEN [s EXCEPT !.mode = "slow", !.exp = t + 2000, !.busy = TRUE, !.set = <<[v |-> <<>>, t |-> t]>>]
               ELSE [s EXCEPT !.busy = TRUE]

TFeedback(s, t, r, v, p, limited) ==
  LET e    == Ewma(s.rtt, RQ(r, 1000))
      inc  == RLt(s.p, p)
      u    == RecvUpdate(s.set, t, v, limited, inc, Ms(e))
      rto  == Ms(Rto(e, s.x))
      clip(x) == RMin(RMax(x, Floor), s.cap)
      tgt  == IF s.dbl < 0 THEN RDiv(RInt(736), e) ELSE RMul(s.x, RQ(1, 2))
      eq   == Eqn(e, p)
      base == [s EXCEPT !.rtt = e, !.p = p, !.set = u.set, !.rto = rto, !.exp = t + rto, !.busy = FALSE, !.ps = <<>>]
  IN CASE s.mode = "slow" /\ inc -> [base EXCEPT !.mode = "eqn", !.x = clip(LMin(tgt, u.lim)), !.teq = tgt, !.ps = EqnInv(e, tgt)]
       [] s.mode = "slow" /\ ~inc /\ s.dbl < 0 -> [base EXCEPT !.dbl = t, !.x = clip(Initial(e))]
       [] s.mode = "slow" /\ ~inc /\ s.dbl >= 0 ->
            IF t - s.dbl >= Ms(e) THEN [base EXCEPT !.dbl = t, !.x = clip(RMax(LMin(RMul(Two, s.x), u.lim), Initial(e)))] ELSE base
       [] s.mode = "eqn" -> [base EXCEPT !.teq = eq, !.x = clip(LMin(eq, u.lim))]

TSilent(s, t) ==
  IF s.mode = "await" \/ t < s.exp THEN s ELSE
  LET e    == IF s.rtt = <<>> THEN Zero ELSE s.rtt
      half(x) == RMin(s.x, RMax(Floor, RMul(x, RQ(1, 2))))
      done(s2) == LET rto == Ms(Rto(e, s2.x)) IN [s2 EXCEPT !.rto = rto, !.exp = t + rto, !.busy = FALSE]
      vm   == VMax(s.set)
  IN IF s.mode = "slow"
     THEN IF s.rtt # <<>> /\ ~s.busy /\ RLt(s.x, RMul(Two, Initial(e))) THEN done(s) ELSE done([s EXCEPT !.x = half(s.x)])
     ELSE IF ~s.busy /\ vm # <<>> /\ RLt(vm, Initial(e)) THEN done(s)
     ELSE LET lim == RMax(Floor, RMul(RQ(1, 2), LMin(s.teq, IF vm = <<>> THEN <<>> ELSE RMul(Two, vm)))) IN
          done([s EXCEPT !.set = <<[v |-> RMul(RQ(1, 2), lim), t |-> t]>>, !.x = RMin(s.x, RMax(Floor, RMin(s.teq, lim)))])
=============================================================================
