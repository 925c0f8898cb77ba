------------------------------ MODULE LinkObs ------------------------------
(***************************************************************************)
(* Observer of one direction of a connection: a sender, its peer, and the  *)
(* datagrams between them.  LStep(cfg, st, ev) is total: it folds an       *)
(* externally visible event into the abstract state `st' and records which *)
(* property, if any, the event violates in st.v.  The same operator judges *)
(* the design specification (Link.tla) and recorded executions.            *)
(*                                                                         *)
(* cfg: pk    - <<channel, mode, length>> of every packet, by uid          *)
(*              mode 0 TimeSensitive, 1 Unreliable, 2 Persistent, 3 Reliable*)
(*      ideal - 1 iff the network never loses, duplicates or reorders      *)
(*      rate, alloc, win - negotiated limits                               *)
(*      probe - first packet submitted after the faults ended (0: none)    *)
(* ev:  S submit  D data frame sent  Y sync sent  K acknowledgement sent   *)
(*      A acknowledgement consumed by the sender  X sender's step() done   *)
(*      R packet delivered  C connection ended  E end of the scenario      *)
(*      P panic  H call does not return  G non-frame emitted               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

MaxFrame == 1472
Frag == 1448

TS == 0
UN == 1
PE == 2
RE == 3

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

Ch(cfg, u) == cfg.pk[u][1]
Mode(cfg, u) == cfg.pk[u][2]
Len_(cfg, u) == cfg.pk[u][3]
NFrags(n) == IF n <= Frag THEN 1 ELSE (n + Frag - 1) \div Frag
AllocOf(n) == IF n <= Frag THEN n ELSE NFrags(n) * Frag
AllocLimit(cfg) == IF cfg.alloc > 2000000000 - Frag THEN 2000000000
                   ELSE ((cfg.alloc + Frag - 1) \div Frag) * Frag

LInit(cfg) ==
  LET N == Len(cfg.pk) IN
  [ n     |-> 0,                       \* packets submitted
    nx    |-> 0,                       \* sender steps so far
    xs    |-> [u \in 1..N |-> -1],     \* value of nx when submitted
    tx    |-> [u \in 1..N |-> {}],     \* fragments transmitted
    may   |-> [u \in 1..N |-> {}],     \* fragments which may be acknowledged
    sure  |-> [u \in 1..N |-> {}],     \* fragments which certainly are
    fr    |-> <<>>,                    \* frames sent: [t, n, d] by relative id + 1
    p2u   |-> <<>>,                    \* packet id -> uid
    pb    |-> 0,                       \* packet window base reported by the receiver
    oal   |-> 0,                       \* allocation of outstanding packets
    sum   |-> 0,                       \* bytes submitted, less acknowledged
    fresh |-> {},                      \* untransmitted TimeSensitive packets of this step
    stale |-> 0,                       \* bytes of TimeSensitive packets never to be transmitted
    r     |-> -1, rmin |-> -1,         \* RTT estimate (us), and the least so far
    last  |-> [c \in 0..63 |-> 0],     \* last uid delivered per channel
    lastg |-> 0,                       \* last uid delivered
    got   |-> {},                      \* uids delivered
    lv    |-> 0, lt |-> 0, rm |-> 0,   \* leaky bucket (1/1000 bytes, ms, max RTT in ms)
    closed|-> FALSE,
    v     |-> {} ]                     \* violations <<property, what>>

Bad(st, c, prop, what) == IF c THEN [st EXCEPT !.v = @ \cup {<<prop, what>>}] ELSE st

-----------------------------------------------------------------------------
(* C13: over any interval, bytes <= rate * (interval + RTT) + one frame *)
CeilMs(us) == IF us < 0 THEN 150 ELSE (us + 999) \div 1000
RateOk(cfg) == cfg.rate >= MaxFrame /\ cfg.rate <= 400000

Bucket(cfg, st, ev) ==
  IF ~RateOk(cfg) THEN st ELSE
  LET dt  == ev.t - st.lt
      dec == IF dt > 1000000000 \div cfg.rate THEN 1000000000 ELSE dt * cfg.rate
      l0  == Max2(0, st.lv - dec)
      q   == Max2(CeilMs(ev.q), CeilMs(st.r))
      rm  == IF l0 = 0 THEN q ELSE Max2(st.rm, q)
      \* flush() may be called several times per millisecond, the unit of time here
      cap == Min2(rm + cfg.sub, 1900000000 \div cfg.rate) * cfg.rate + (MaxFrame + 8) * 1000
      l1  == l0 + ev.z * 1000
  IN [Bad(Bad(st, l1 > cap, "C13", <<"ceiling exceeded", ev.t>>),
          l1 > 2 * Min2(cap, 900000000), "C07", <<"sends as if another rate limit had been negotiated", ev.t>>) EXCEPT
        !.lv = Min2(l1, 1900000000), !.lt = ev.t, !.rm = rm]

-----------------------------------------------------------------------------
Submit(cfg, st, ev) ==
  LET u == ev.u IN
  [st EXCEPT !.n = u, !.xs[u] = st.nx, !.sum = @ + Len_(cfg, u),
             !.fresh = IF Mode(cfg, u) = TS THEN @ \cup {u} ELSE @]

(* C20: bytes accepted, neither acknowledged nor discarded as stale *)
SizeOk(cfg, st, b) == b <= st.sum /\ b >= st.sum - st.stale
CheckSize(cfg, st, b) ==
  Bad(st, ~st.closed /\ ~SizeOk(cfg, st, b), "C20", <<"size", b, "expected", st.sum - st.stale, st.sum>>)

(* One datagram of a data frame sent at time t *)
Dgram(cfg, t, st, d) ==
  LET u == d[1]  k == d[2]  last == d[3]  p == d[4]  ok == d[8]  ch == d[9] IN
  IF u = 0 \/ ok = 0 \/ u > st.n
  THEN Bad(st, TRUE, "C04", <<"fragment is not part of any submitted packet", d>>)
  ELSE
  LET m    == Mode(cfg, u)
      isNew == st.tx[u] = {}
      s1 == Bad(st, ch # Ch(cfg, u), "C01", <<"sent on another channel", u>>)
      s2 == Bad(s1, m = TS /\ isNew /\ st.xs[u] # st.nx, "C12", <<"stale TimeSensitive packet transmitted", u>>)
      s3 == Bad(s2, m \in {TS, UN} /\ k \in st.tx[u], "C12", <<"fragment transmitted twice", u, k>>)
      s4 == Bad(s3, m \in {PE, RE} /\ k \in st.sure[u], "C12", <<"retransmitted after acknowledgement", u, k>>)
      s5 == Bad(s4, m \in {PE, RE} /\ ~isNew /\ p < st.pb, "C12", <<"retransmitted although the receiver moved past", u, k>>)
      np   == Len(st.p2u)
      s6 == IF p < np THEN (IF st.p2u[p + 1] = 0 THEN [s5 EXCEPT !.p2u[p + 1] = u] ELSE s5)
            ELSE IF p >= np + 100000 THEN s5
            ELSE [s5 EXCEPT !.p2u = @ \o [j \in 1..(p - np) |-> 0] \o <<u>>]
      s7 == IF isNew
            THEN LET a == s6.oal + AllocOf(Len_(cfg, u)) IN
                 Bad(Bad(Bad([s6 EXCEPT !.oal = a], a > AllocLimit(cfg), "C06", <<"outstanding bytes", a>>),
                         a > 2 * Min2(AllocLimit(cfg), 1000000000), "C07", <<"sends as if another receive limit had been negotiated", a>>),
                     Len(s6.p2u) - s6.pb > cfg.win, "C06", <<"outstanding packets", Len(s6.p2u) - s6.pb>>)
            ELSE s6
  IN [s7 EXCEPT !.tx[u] = @ \cup {k}, !.fresh = @ \ {u}]

Data(cfg, st, ev) ==
  LET s1 == Bad(Bucket(cfg, st, ev), ev.z > MaxFrame, "C04", <<"frame size", ev.z>>)
      s2 == FoldLeft(LAMBDA s, d : Dgram(cfg, ev.t, s, d), s1, ev.d)
      rec == [t |-> ev.t, n |-> ev.n, d |-> [j \in 1..Len(ev.d) |-> <<ev.d[j][1], ev.d[j][2]>>]]
  IN IF ev.f = Len(st.fr) THEN [s2 EXCEPT !.fr = Append(@, rec)] ELSE s2

(* Persistent and Reliable fragments are retransmitted until acknowledged: the sender may only *)
(* tell the receiver to move past packets (sync) which need no retransmission                  *)
Sync(cfg, st, ev) ==
  LET s1 == Bucket(cfg, st, ev) IN
  IF ev.p < 0 THEN s1 ELSE
  LET gaveUp == \E p \in st.pb..Min2(ev.p, Len(st.p2u)) - 1 :
             LET u == st.p2u[p + 1] IN
             u > 0 /\ Mode(cfg, u) \in {PE, RE} /\ Cardinality(st.may[u]) < NFrags(Len_(cfg, u))
  IN Bad(Bad(s1, gaveUp, "C12", <<"gave up on an unacknowledged packet", ev.t>>),
         gaveUp, "C15", <<"treats fragments as acknowledged which no genuine acknowledgement covered", ev.t>>)

(* Acknowledgement consumed *)
XorN(st, base, offs) == FoldLeft(LAMBDA a, o : (a + st.fr[base + o + 1].n) % 2, 0, offs)

AckGroup(cfg, t, st, g) ==
  LET base == g[1]  offs == g[2]  NF == Len(st.fr) IN
  IF offs = <<>> \/ base < 0 \/ base + offs[Len(offs)] >= NF THEN st ELSE
  LET hi     == offs[Len(offs)]
      genuine == XorN(st, base, offs) = g[3]
      rt     == IF st.rmin < 0 THEN 150 ELSE Min2(150, st.rmin \div 1000)
      \* not yet forgotten by any sender keeping frames for 4 RTT, as recommended
      young  == \A o \in 0..hi : t - st.fr[base + o + 1].t <= 2 * rt
      frags  == UNION { { st.fr[base + offs[j] + 1].d[i] : i \in 1..Len(st.fr[base + offs[j] + 1].d) } : j \in 1..Len(offs) }
      us     == { f[1] : f \in frags } \ {0}
      ks(u)  == { f[2] : f \in { x \in frags : x[1] = u } }
      m2     == [u \in DOMAIN st.may |-> IF u \in us THEN st.may[u] \cup ks(u) ELSE st.may[u]]
      s2     == [u \in DOMAIN st.sure |-> IF u \in us THEN st.sure[u] \cup ks(u) ELSE st.sure[u]]
  IN IF ~genuine THEN st
     ELSE IF young THEN [st EXCEPT !.may = m2, !.sure = s2] ELSE [st EXCEPT !.may = m2]

Ack(cfg, st, ev) ==
  LET s1 == FoldLeft(LAMBDA s, g : AckGroup(cfg, ev.t, s, g), st, ev.g)
      np == Len(s1.p2u)
      us == { s1.p2u[p + 1] : p \in s1.pb..(Min2(ev.pb, np) - 1) } \ {0}
      s3 == FoldSet(LAMBDA u, s : [s EXCEPT !.oal = @ - AllocOf(Len_(cfg, u)), !.sum = @ - Len_(cfg, u)], s1, us)
  IN IF ev.pb > s1.pb /\ ev.pb <= np THEN [s3 EXCEPT !.pb = ev.pb] ELSE s1

Step(cfg, st, ev) ==
  LET s1 == [st EXCEPT !.nx = @ + 1,
                       !.stale = @ + FoldSet(LAMBDA u, a : a + Len_(cfg, u), 0, st.fresh),
                       !.fresh = {},
                       !.r = ev.r,
                       !.rm = Max2(@, CeilMs(ev.r)),
                       !.rmin = IF ev.r < 0 THEN @ ELSE IF @ < 0 THEN ev.r ELSE Min2(@, ev.r),
                       !.closed = @ \/ ev.h = 2]
  IN CheckSize(cfg, s1, ev.b)

-----------------------------------------------------------------------------
Deliver(cfg, st, ev) ==
  LET u == ev.u IN
  IF u = 0 \/ u > st.n
  THEN Bad(Bad(st, TRUE, "C01", <<"delivered a packet which was never submitted", ev.t>>), TRUE, "C04", <<"altered contents", ev.t>>) ELSE
  LET c  == Ch(cfg, u)
      l  == st.last[c]
      s1 == Bad(st, u = l \/ u \in st.got, "C01", <<"delivered twice", u>>)
      s2 == Bad(s1, u < l, "C01", <<"delivered out of order", u, "after", l>>)
      s3 == Bad(s2, \E w \in (l + 1)..(u - 1) : Ch(cfg, w) = c /\ Mode(cfg, w) = RE,
                "C02", <<"Reliable packet skipped by", u>>)
      s4 == IF cfg.ideal = 0 THEN s3 ELSE
            Bad(Bad(s3, u <= st.lastg, "C05", <<"global order", u, "after", st.lastg>>),
                \E w \in (st.lastg + 1)..(u - 1) : ~(Mode(cfg, w) = TS /\ st.tx[w] = {}),
                "C05", <<"skipped before", u>>)
      s5 == Bad(s4, st.tx[u] = {}, "C01", <<"delivered before transmission", u>>)
  IN [s5 EXCEPT !.last[c] = u, !.lastg = Max2(@, u), !.got = @ \cup {u}]

End(cfg, st, ev) ==
  IF st.closed THEN st ELSE
  LET lost(S) == { u \in S : u \notin st.got }
      all == 1..st.n
      s1 == Bad(st, lost({ u \in all : Mode(cfg, u) = RE }) # {}, "C02", <<"Reliable packets never delivered", lost({ u \in all : Mode(cfg, u) = RE })>>)
      s2 == Bad(s1, ev.b # 0, "C02", <<"send buffer not empty", ev.b>>)
      s3 == Bad(s2, ev.b # 0, "C20", <<"send buffer not empty", ev.b>>)
      due == { u \in all : Mode(cfg, u) # TS \/ st.tx[u] # {} }
      s4 == Bad(s3, cfg.ideal = 1 /\ lost(due) # {}, "C05", <<"never delivered", lost(due)>>)
      s5 == Bad(s4, cfg.ideal = 1 /\ lost(due) # {}, "C06", <<"discarded", lost(due)>>)
      prb == IF cfg.probe = 0 THEN {} ELSE { u \in all : u >= cfg.probe }
      \* A TimeSensitive probe may find the send credit used up by acknowledgements, but not always
      pts == { u \in prb : Mode(cfg, u) = TS }
      s5b == Bad(s5, pts # {} /\ pts \cap st.got = {}, "C11", <<"stalled: no TimeSensitive probe delivered", pts>>)
      s6 == Bad(s5b, lost(prb \cap due) # {}, "C11", <<"stalled: probes not delivered", lost(prb \cap due)>>)
      s7 == Bad(s6, ev.b # 0, "C11", <<"stalled: windows never reopened", ev.b>>)
  IN s7

Crash(st, what) ==
  [st EXCEPT !.v = @ \cup { <<p, what>> : p \in {"C01", "C02", "C03", "C04", "C05", "C06", "C11", "C12", "C13", "C20"} }]

LStep(cfg, st, ev) ==
  CASE ev.e = "S" -> CheckSize(cfg, Submit(cfg, st, ev), ev.b)
    [] ev.e = "D" -> Data(cfg, st, ev)
    [] ev.e = "Y" -> Sync(cfg, st, ev)
    [] ev.e = "K" -> Bad(Bucket(cfg, st, ev), ev.z > MaxFrame, "C04", <<"frame size", ev.z>>)
    [] ev.e = "A" -> Ack(cfg, st, ev)
    [] ev.e = "X" -> Step(cfg, st, ev)
    [] ev.e = "R" -> Deliver(cfg, st, ev)
    [] ev.e = "C" -> [st EXCEPT !.closed = TRUE]
    [] ev.e = "E" -> End(cfg, st, ev)
    [] ev.e = "P" -> Crash(st, <<"panic", ev.m>>)
    [] ev.e = "H" -> Crash(st, <<"call does not return">>)
    [] OTHER -> st

Violates(st, prop) == \E x \in st.v : x[1] = prop
=============================================================================
