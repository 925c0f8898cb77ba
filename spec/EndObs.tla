------------------------------ MODULE EndObs ------------------------------
(***************************************************************************)
(* Observer of endpoint life cycles: one server and any number of          *)
(* addresses, each with a client object or scripted.  EStep(cfg, st, ev)   *)
(* is total; it buffers what a step() consumed and emitted, and judges the *)
(* whole step when it ends (event x).                                      *)
(*                                                                         *)
(* d = 0: the server, towards address a; d = 1: the client at address a.   *)
(* ev:  p API call    i datagram consumed   o datagram emitted             *)
(*      x step() returned (t, previous step pt, events v, tracked and      *)
(*        active addresses tr and ac / client is_active h, send buffer b)  *)
(*      z end of the scenario    P panic   H call does not return          *)
(* kinds of datagrams: N SYN  B SYN-ACK  A ACK  E error  Q disconnect      *)
(*      q disconnect-ack  F data  Y sync  K ack frame  U undersized SYN    *)
(*      X not a frame.   n: nonce, m: acknowledged nonce (interned)        *)
(* events: C Connect  R Receive  D Disconnect  T timeout  V version        *)
(*      G configuration  F server full                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

RetryMs == 2000
Tries == 11
BudgetMs == 22000
ClosedMs == 20000
FullFrame == 1472
Version == 3

Has(s, k) == \E i \in 1..Len(s) : s[i].k = k
HasAny(s, ks) == \E i \in 1..Len(s) : s[i].k \in ks
EvHas(v, k) == \E i \in 1..Len(v) : v[i][2] = k
SumZ(s) == FoldLeft(LAMBDA x, r : x + r.z, 0, s)
MaxI(a, b) == IF a > b THEN a ELSE b
FrameKinds == {"N", "B", "A", "E", "Q", "q", "F", "Y", "K"}
DataKinds == {"F", "Y", "K"}
Terminal == {"D", "T", "V", "G", "F"}

Side0 ==
  [ conn |-> FALSE, pend |-> FALSE, over |-> FALSE,
    n |-> 0, nn |-> 0, t0 |-> 0, tl |-> 0,    \* own nonce of the handshake, transmissions, first, last
    rn |-> 0,                                 \* (client) nonce of the server
    th |-> 0, ta |-> 0,                       \* last established-connection frame / any frame heard
    tc |-> 0,                                 \* time of Connect
    req |-> 0, treq |-> 0,                    \* 1 disconnect(), 2 disconnect_now(), 3 both
    q0 |-> -1, ql |-> -1, qn |-> 0,           \* first and last disconnect request, their number
    tz |-> -1,                                \* since when the send queue is empty after disconnect()
    te |-> -1, gone |-> FALSE,                \* time of the terminal event; forgotten at once
    rel |-> {}, due |-> {}, all |-> {},       \* submitted: Reliable / not TimeSensitive (before disconnect()), all
    got |-> {}, top |-> 0,                    \* received, the latest
    nf |-> 0, sb |-> 0, nul |-> FALSE,        \* an empty packet was submitted
    ib |-> 0, ob |-> 0, ver |-> FALSE,        \* bytes before verification
    ub |-> 0, tu |-> 0,                       \* (client) steps with an unanswered SYN-ACK, the first
    uq |-> 0, tq |-> 0, ask |-> FALSE,        \* steps with an unanswered disconnect request after one ended
                                              \* the connection, the first
    r |-> 0, p |-> 0, w |-> 0, to |-> 0, real |-> FALSE ]

EInit(cfg) ==
  [ sv |-> [a \in 1..cfg.na |-> Side0],
    cl |-> [a \in 1..cfg.na |-> Side0],
    bi |-> <<>>, bo |-> <<>>,                 \* consumed and emitted since the step began
    tr |-> {}, ac |-> {},
    v  |-> {} ]

Bad(st, c, prop, what) == IF c THEN [st EXCEPT !.v = @ \cup {<<prop, what>>}] ELSE st

-----------------------------------------------------------------------------
(* Rules common to both sides.  A judgement is a pair <<side, violations>> *)

V(S, c, prop, what) == IF c THEN S \cup {<<prop, what>>} ELSE S

(* An established connection without a disconnect request on the wire *)
Silence(s, I, E, t, pt, to) ==
  LET th == IF HasAny(I, DataKinds) THEN t ELSE s.th
      ta == IF HasAny(I, FrameKinds) THEN t ELSE s.ta
      term == \E k \in Terminal : EvHas(E, k)
      on == s.conn /\ s.q0 < 0
      a1 == V({}, on /\ EvHas(E, "T") /\ t - th < to, "C10", <<"timed out early", t, th>>)
      a2 == V(a1, on /\ EvHas(E, "T") /\ pt - s.ta >= to, "C10", <<"timed out late", t, pt, s.ta>>)
      a3 == V(a2, on /\ ~term /\ t - ta >= to, "C10", <<"silence not reported", t, ta>>)
  IN <<[s EXCEPT !.th = th, !.ta = ta], a3>>

(* Disconnect requests: 11 transmissions 2 s apart, then a timeout *)
Closing(s, I, O, E, t, pt) ==
  LET term == \E k \in Terminal : EvHas(E, k)
      emit == Has(O, "Q")
      inQ  == HasAny(I, {"Q", "q"})
      clg  == s.conn /\ s.q0 >= 0
      a1 == V({}, emit /\ ~s.conn, "C09", <<"disconnect request without a connection", t>>)
      a2 == V(a1, emit /\ s.conn /\ s.q0 < 0 /\ s.req = 0, "C09", <<"disconnect request which was not asked for", t>>)
      a3 == V(a2, emit /\ clg /\ t - s.ql < RetryMs, "C10", <<"disconnect request repeated early", t, s.ql>>)
      a4 == V(a3, emit /\ clg /\ s.qn >= Tries, "C10", <<"too many disconnect requests", t>>)
      a5 == V(a4, clg /\ pt - s.ql >= RetryMs, "C10", <<"disconnect request not repeated in time", t, s.ql>>)
      a6 == V(a5, clg /\ EvHas(E, "T") /\ ~(s.qn = Tries /\ t - s.ql >= RetryMs), "C10", <<"disconnect gave up early", t>>)
      a6b == V(a6, clg /\ EvHas(E, "T") /\ inQ, "C09", <<"timeout although the peer answered", t>>)
      a7 == V(a6b, clg /\ inQ /\ ~term, "C09", <<"no terminal event although the peer answered", t>>)
      a8 == V(a7, clg /\ ~inQ /\ EvHas(E, "D"), "C09", <<"disconnect which the peer did not confirm", t>>)
      a9 == V(a8, clg /\ ~term /\ s.qn = Tries /\ t - s.ql >= RetryMs, "C10", <<"disconnect never gave up", t>>)
      a10 == V(a9, clg /\ ~term /\ s.qn = Tries /\ t - s.ql >= RetryMs, "C09", <<"no terminal event within the retry budget", t>>)
      \* disconnect_now() takes effect at the next step
      a11 == V(a10, s.conn /\ s.q0 < 0 /\ s.req = 2 /\ s.treq < t /\ ~emit /\ ~term, "C09", <<"disconnect_now() not honoured", t>>)
      s1 == IF emit THEN (IF s.q0 < 0 THEN [s EXCEPT !.q0 = t, !.ql = t, !.qn = 1] ELSE [s EXCEPT !.ql = t, !.qn = @ + 1]) ELSE s
  IN <<s1, a11>>

(* C08: the event stream.  `peer' is the other side of the connection, `strict' whether its packets are known *)
EvFold(cfg, s, E, t, peer, strict) ==
  FoldLeft(LAMBDA acc, e :
    LET x == acc[1]  A == acc[2]  k == e[2]  u == e[3] IN
    CASE k = "C" ->
           <<[x EXCEPT !.conn = TRUE, !.over = FALSE, !.th = t, !.ta = t, !.tc = t, !.q0 = -1, !.qn = 0, !.tz = -1, !.te = -1,
                       !.gone = FALSE, !.got = {}, !.top = 0, !.nf = 0,
                       !.ver = TRUE, !.pend = FALSE],
             V(V(A, x.conn, "C08", <<"Connect while connected", t>>), x.conn, "C07", <<"Connect while connected", t>>)>>
      [] k = "R" ->
           <<[x EXCEPT !.got = @ \cup {u}, !.top = u],
             V(V(V(A, cfg.ideal = 3 /\ u <= x.top, "C05", <<"global order", u, "after", x.top>>), ~x.conn, "C08", <<"Receive without a connection", t, u>>), strict /\ u \notin peer.all, "C08", <<"Receive of a packet not sent on this connection", t, u>>)>>
      [] k = "D" ->
           <<[x EXCEPT !.conn = FALSE, !.over = TRUE, !.te = t, !.gone = FALSE],
             V(A, ~x.conn, "C08", <<"Disconnect without a connection", t>>)>>
      [] k = "T" ->
           <<[x EXCEPT !.conn = FALSE, !.over = TRUE, !.te = t, !.gone = TRUE, !.pend = FALSE],
             V(A, ~x.conn /\ ~x.pend, "C08", <<"Error without a connection", t>>)>>
      [] OTHER ->
           \* a refused attempt
           <<[x EXCEPT !.conn = FALSE, !.over = TRUE, !.pend = FALSE],
             V(A, x.conn, "C08", <<"handshake error on an established connection", t>>)>>,
    <<s, {}>>, E)

(* C09: nothing submitted before disconnect() is missing when the peer sees Disconnect *)
Flushed(cfg, s, s2, E, t, peer) ==
  V(V({}, cfg.ideal = 3 /\ s.conn /\ EvHas(E, "D") /\ peer.req = 1 /\ s.req = 0 /\ ~(peer.due \subseteq s2.got),
      "C05", <<"never delivered on an ideal network", t, peer.due \ s2.got>>), s.conn /\ EvHas(E, "D") /\ peer.req = 1 /\ s.req = 0 /\ ~(peer.rel \subseteq s2.got),
    "C09", <<"Disconnect before all Reliable packets", t, peer.rel \ s2.got>>)

(* C09: the peer's request ends this side, too *)
PeerBound(cfg, s2, t, peer, to) ==
  V({}, s2.conn /\ s2.q0 < 0 /\ peer.q0 >= 0 /\ to <= 20000 /\ t - MaxI(peer.q0, s2.tc) > BudgetMs + cfg.dmax + 2 * cfg.gap,
    "C09", <<"no terminal event after the peer's disconnect request", t, peer.q0>>)

(* C09: an endpoint whose connection was ended by a disconnect request confirms the repetitions
   of it, which the peer sends as long as no confirmation arrives, or the peer takes it to be
   unreachable. *)
Confirms(s, s2, I, O, E, t) ==
  LET ends == EvHas(E, "D") /\ Has(I, "Q")
      old  == s.over /\ s.ask /\ s.te >= 0 /\ t - s.te < ClosedMs /\ ~EvHas(E, "C") /\ ~EvHas(E, "D") /\ ~EvHas(E, "T")
      uq   == IF ends \/ ~old \/ Has(O, "q") THEN 0 ELSE IF Has(I, "Q") THEN s.uq + 1 ELSE s.uq
      tq   == IF uq = 1 /\ s.uq = 0 THEN t ELSE s.tq
  IN <<[s2 EXCEPT !.uq = uq, !.tq = tq, !.ask = IF ends THEN TRUE ELSE @ /\ old],
       V({}, uq >= 3 /\ t - tq > RetryMs, "C09", <<"repeated disconnect requests not confirmed", t, tq, uq>>)>>

(* C07: a client which took a SYN-ACK for its connection acknowledges the repetitions, too *)
ReAck(s, rn, Ans, As, t) ==
  LET on == s.conn /\ s.req = 0 /\ s.q0 < 0
      ub == IF ~on \/ As # <<>> THEN 0 ELSE IF \E i \in 1..Len(Ans) : Ans[i].k = "B" /\ Ans[i].n = rn THEN s.ub + 1 ELSE s.ub
      tu == IF ub = 1 /\ s.ub = 0 THEN t ELSE s.tu
  IN <<[s EXCEPT !.ub = ub, !.tu = tu],
       V({}, ub >= 3 /\ t - tu > RetryMs, "C07", <<"repeated SYN-ACK not acknowledged", t, tu, ub>>)>>

(* C09: disconnect() must not wait for ever once the send queue has drained.  (An empty packet
   may be waiting although the queue holds no bytes.) *)
Drained(s, b, t) ==
  LET on == s.conn /\ s.q0 < 0 /\ s.req = 1 /\ b = 0 /\ ~s.nul
      tz == IF ~on THEN -1 ELSE IF s.tz < 0 THEN t ELSE s.tz
  IN <<[s EXCEPT !.tz = tz, !.sb = b], V({}, on /\ t - tz > 20000, "C09", <<"disconnect() never sent a request", t>>)>>

FirstSeq(s, O, t) ==
  LET F == SelectSeq(O, LAMBDA o : o.k = "F") IN
  <<[s EXCEPT !.nf = @ + Len(F)],
    V({}, Len(F) > 0 /\ s.nf = 0 /\ F[1].x # 0, "C07", <<"first sequence number is not the nonce", t, F>>)>>

-----------------------------------------------------------------------------
(* The server's view of address a *)

CompatSyn(cfg, i) == i.w >= cfg.sp /\ i.p <= cfg.sw
GoodSyn(cfg, i) == i.k = "N" /\ i.x = Version /\ CompatSyn(cfg, i)

SrvAddr(cfg, st, pd, ev, a, syners) ==
  LET s  == st.sv[a]
      c  == st.cl[a]
      t  == ev.t
      I  == SelectSeq(st.bi, LAMBDA x : x.d = 0 /\ x.a = a)
      O  == SelectSeq(st.bo, LAMBDA x : x.d = 0 /\ x.a = a)
      E  == SelectSeq(ev.v, LAMBDA x : x[1] = a)
      tr == { ev.tr[j] : j \in 1..Len(ev.tr) }
      tracked == a \in st.tr
      Syns == SelectSeq(I, LAMBDA i : i.k = "N")
      Acks == { I[j].m : j \in { k \in 1..Len(I) : I[k].k = "A" } }
      Bs == SelectSeq(O, LAMBDA o : o.k = "B")
      Es == SelectSeq(O, LAMBDA o : o.k = "E")
      others == syners \ {a}
      full == \/ Cardinality((st.tr \cup others) \ {a}) >= cfg.mt
              \/ Cardinality((st.ac \cup pd \cup others) \ {a}) >= cfg.ma
      refusals == { "V", "G", "F" }
      code(k) == CASE k = "V" -> 0 [] k = "G" -> 1 [] OTHER -> 2
      \* handshake
      h1 == V({}, EvHas(E, "C") /\ ~(s.pend /\ s.n \in Acks), "C07", <<"Connect without the address having returned the nonce", t, a>>)
      h2 == V(h1, s.pend /\ s.n \in Acks /\ t - s.t0 < BudgetMs /\ ~EvHas(E, "C"), "C07", <<"handshake not completed", t, a>>)
      fresh == SelectSeq(Bs, LAMBDA o : ~(s.pend /\ o.n = s.n))
      again == SelectSeq(Bs, LAMBDA o : s.pend /\ o.n = s.n)
      h3 == V(h2, Len(fresh) > 0 /\ s.conn /\ ~(\E k \in Terminal : EvHas(E, k)), "C07", <<"new handshake for an established connection", t, a>>)
      h4 == V(h3, Len(fresh) > 0 /\ s.pend /\ t - s.t0 < BudgetMs, "C07", <<"handshake in progress replaced", t, a>>)
      h5 == V(h4, \E j \in 1..Len(fresh) : ~\E i \in 1..Len(Syns) : Syns[i].n = fresh[j].m /\ GoodSyn(cfg, Syns[i]),
              "C07", <<"SYN-ACK without an acceptable SYN", t, a>>)
      h6 == V(h5, \E j \in 1..Len(Bs) : Bs[j].r # cfg.sr \/ Bs[j].p # cfg.sp \/ Bs[j].w # cfg.sw, "C07", <<"limits misreported", t, a>>)
      h7 == V(h6, Len(again) > 0 /\ (t - s.tl < RetryMs \/ s.nn >= Tries), "C10", <<"SYN-ACK repeated early", t, a>>)
      h8 == V(h7, s.pend /\ tracked /\ ev.pt - s.tl >= RetryMs, "C10", <<"SYN-ACK not repeated in time", t, a>>)
      \* refusals
      h9 == V(h8, \E j \in 1..Len(Es) : Es[j].x \in {0, 1} /\
                    ~\E i \in 1..Len(Syns) : Syns[i].n = Es[j].m /\ (IF Es[j].x = 0 THEN Syns[i].x # Version ELSE ~CompatSyn(cfg, Syns[i])),
              "C07", <<"refused for no reason", t, a>>)
      h10 == V(h9, \E j \in 1..Len(Es) : Es[j].x = 2 /\ ~(full /\ \E i \in 1..Len(Syns) : Syns[i].n = Es[j].m),
              "C17", <<"refused although not full", t, a>>)
      single == Len(Syns) = 1 /\ Len(I) = 1 /\ ~tracked /\ ~s.conn
      h11 == V(h10, single /\ Len(Bs) + Len(Es) # 1, "C07", <<"connection request not answered", t, a>>)
      h12 == V(h11, single /\ Len(Bs) = 0 /\ Len(Es) = 1 /\ GoodSyn(cfg, Syns[1]) /\ Es[1].x # 2, "C07", <<"wrong refusal", t, a>>)
      evref == SelectSeq(E, LAMBDA e : e[2] \in refusals)
      h13 == V(h12, Len(evref) # (IF cfg.errs = 1 THEN Len(Es) ELSE 0)
                    \/ (Len(evref) = Len(Es) /\ \E j \in 1..Len(Es) : code(evref[j][2]) # Es[j].x),
              "C07", <<"refusals and Error events differ", t, a>>)
      \* C18
      ib == s.ib + SumZ(I)
      ob == s.ob + SumZ(O)
      h14 == V(h13, ~s.ver /\ ob > 0 /\ ob >= ib, "C18", <<"sent more than received", a, ob, ib>>)
      h15 == V(h14, ~s.ver /\ ~tracked /\ Syns = <<>> /\ (Bs # <<>> \/ Es # <<>>), "C18", <<"answered something that is no connection request", t, a>>)
      \* life cycle
      r1 == Silence(s, I, E, t, ev.pt, cfg.sto)
      r2 == Closing(r1[1], I, O, E, t, ev.pt)
      s2 == [r2[1] EXCEPT !.ib = ib, !.ob = ob]
      ended == s.pend /\ ~EvHas(E, "C") /\ a \notin tr
      e1 == V({}, ended /\ ~(s.nn = Tries /\ t - s.tl >= RetryMs), "C10", <<"handshake gave up early", t, a>>)
      e2 == V(e1, ended /\ cfg.errs = 1 /\ ~EvHas(E, "T"), "C10", <<"failed handshake not reported", t, a>>)
      e3 == V(e2, s.pend /\ ~s.conn /\ EvHas(E, "T") /\ ~(s.nn = Tries /\ t - s.tl >= RetryMs), "C10", <<"handshake timed out early", t, a>>)
      e4 == V(e3, s.pend /\ ~EvHas(E, "C") /\ a \in tr /\ s.nn = Tries /\ t - s.tl >= RetryMs, "C10", <<"handshake never gave up", t, a>>)
      e5 == V(e4, s.pend /\ ~EvHas(E, "C") /\ a \in tr /\ s.nn = Tries /\ t - s.tl >= RetryMs, "C17", <<"capacity of a failed handshake not released", t, a>>)
      r3 == EvFold(cfg, s2, E, t, c, c.real)
      s3 == [r3[1] EXCEPT !.pend = @ /\ a \in tr]
      conn0 == EvHas(E, "C")
      s3b == IF conn0 THEN [s3 EXCEPT !.req = 0, !.rel = {}, !.due = {}, !.all = {}] ELSE s3
      s4 == IF Len(again) > 0 THEN [s3b EXCEPT !.tl = t, !.nn = @ + 1] ELSE s3b
      s5 == IF Len(fresh) > 0 /\ a \in tr
            THEN [s4 EXCEPT !.pend = ~s4.conn, !.n = fresh[Len(fresh)].n, !.t0 = t, !.tl = t, !.nn = 1, !.over = FALSE, !.te = -1, !.gone = FALSE] ELSE s4
      fl == Flushed(cfg, s, s5, E, t, c)
      pb == IF c.real THEN PeerBound(cfg, s5, t, c, cfg.sto) ELSE {}
      dr == Drained(s5, ev.b[a], t)
      fs == FirstSeq(dr[1], O, t)
      k1 == V({}, cfg.ideal \in {1, 2} /\ s.conn /\ s.q0 < 0 /\ EvHas(E, "T"), IF cfg.ideal = 2 THEN "C10K" ELSE "C10", <<"timeout on a loss-free network", t, a>>)
      cf == Confirms(s, fs[1], I, O, E, t)
      \* C17: capacity is released
      s6 == cf[1]
      x1 == V({}, a \in tr /\ ~s6.conn /\ ~s6.pend /\ s6.te >= 0 /\ t - s6.te > (IF s6.gone THEN 0 ELSE ClosedMs + 10000),
              "C17", <<"capacity not released", t, a>>)
  IN [st EXCEPT !.sv[a] = s6,
                !.v = @ \cup h15 \cup r1[2] \cup r2[2] \cup e5 \cup r3[2] \cup fl \cup pb \cup dr[2] \cup fs[2] \cup k1 \cup x1 \cup cf[2]]

SrvStep(cfg, st, ev) ==
  LET tr == { ev.tr[j] : j \in 1..Len(ev.tr) }
      ac == { ev.ac[j] : j \in 1..Len(ev.ac) }
      touched == { st.bi[j].a : j \in { k \in 1..Len(st.bi) : st.bi[k].d = 0 } }
                 \cup { st.bo[j].a : j \in { k \in 1..Len(st.bo) : st.bo[k].d = 0 } }
                 \cup { ev.v[j][1] : j \in 1..Len(ev.v) }
                 \cup { a \in 1..cfg.na : st.sv[a].conn \/ st.sv[a].pend \/ a \in tr }
      syners == { st.bi[j].a : j \in { k \in 1..Len(st.bi) : st.bi[k].d = 0 /\ st.bi[k].k = "N" } }
      pd == { a \in 1..cfg.na : st.sv[a].pend }      \* handshakes in progress before the step
      s1 == FoldSet(LAMBDA a, s : SrvAddr(cfg, s, pd, ev, a, syners), st, touched \ {0})
      s2 == Bad(s1, Cardinality(tr) > cfg.mt, "C17", <<"too many connections", ev.t, Cardinality(tr)>>)
      s3 == Bad(s2, Cardinality(ac) > cfg.ma, "C17", <<"too many active connections", ev.t, Cardinality(ac)>>)
      s4 == Bad(s3, 0 \in touched, "C08", <<"event for an unknown address", ev.t>>)
  IN [s4 EXCEPT !.tr = tr, !.ac = ac,
                !.bi = SelectSeq(@, LAMBDA x : x.d # 0), !.bo = SelectSeq(@, LAMBDA x : x.d # 0)]

-----------------------------------------------------------------------------
(* The client at address a *)

ClStep(cfg, st, ev) ==
  LET a  == ev.a
      s  == st.cl[a]
      p  == st.sv[a]
      t  == ev.t
      I  == SelectSeq(st.bi, LAMBDA x : x.d = 1 /\ x.a = a)
      O  == SelectSeq(st.bo, LAMBDA x : x.d = 1 /\ x.a = a)
      E  == ev.v
      \* the first frame which answers the request
      Ans == SelectSeq(I, LAMBDA i : (i.k = "B" \/ i.k = "E") /\ i.m = s.n)
      Ns == SelectSeq(O, LAMBDA o : o.k = "N")
      As == SelectSeq(O, LAMBDA o : o.k = "A")
      code(k) == CASE k = "V" -> 0 [] k = "G" -> 1 [] OTHER -> 2
      pend == s.pend
      h1 == V({}, EvHas(E, "C") /\ ~(pend /\ Has(Ans, "B")), "C07", <<"Connect without a SYN-ACK echoing the nonce", t, a>>)
      h2 == V(h1, pend /\ Ans # <<>> /\ Ans[1].k = "B" /\ ~EvHas(E, "C"), "C07", <<"SYN-ACK ignored", t, a>>)
      h3 == V(h2, pend /\ Ans # <<>> /\ Ans[1].k = "E" /\ ~\E j \in 1..Len(E) : E[j][2] \in {"V", "G", "F"} /\ code(E[j][2]) = Ans[1].x,
              "C07", <<"refusal not reported", t, a>>)
      h4 == V(h3, \E j \in 1..Len(E) : E[j][2] \in {"V", "G", "F"} /\ ~(pend /\ \E i \in 1..Len(Ans) : Ans[i].k = "E" /\ Ans[i].x = code(E[j][2])),
              "C07", <<"refusal which the server did not send", t, a>>)
      rn == IF EvHas(E, "C") /\ Has(Ans, "B") THEN SelectSeq(Ans, LAMBDA i : i.k = "B")[1].n ELSE s.rn
      h5 == V(h4, \E j \in 1..Len(As) : ~(As[j].m = rn /\ \E i \in 1..Len(Ans) : Ans[i].k = "B" /\ Ans[i].n = As[j].m),
              "C07", <<"acknowledged a handshake which is not its own", t, a>>)
      h6 == V(h5, \E j \in 1..Len(Ns) : Ns[j].n # s.n \/ Ns[j].r # s.r \/ Ns[j].p # s.p \/ Ns[j].w # s.w \/ Ns[j].x # Version,
              "C07", <<"connection request altered", t, a>>)
      h7 == V(h6, Len(Ns) > 0 /\ ~pend, "C07", <<"connection request without an attempt", t, a>>)
      h8 == V(h7, Len(Ns) > 0 /\ (t - s.tl < RetryMs \/ s.nn >= Tries), "C10", <<"SYN repeated early", t, a>>)
      h9 == V(h8, pend /\ ev.pt - s.tl >= RetryMs, "C10", <<"SYN not repeated in time", t, a>>)
      h10 == V(h9, pend /\ EvHas(E, "T") /\ ~(s.nn = Tries /\ t - s.tl >= RetryMs), "C10", <<"handshake timed out early", t, a>>)
      h11 == V(h10, pend /\ E = <<>> /\ s.nn = Tries /\ t - s.tl >= RetryMs, "C10", <<"handshake never timed out", t, a>>)
      h12 == V(h11, s.over /\ E # <<>>, "C08", <<"event after the end", t, a, E>>)
      h13 == V(h12, EvHas(E, "C") /\ ev.h = 0 /\ ~(\E k \in Terminal : EvHas(E, k)) /\ ~Has(O, "Q"), "C07", <<"Connect, but not active", t, a>>)
      r1 == Silence(s, I, E, t, ev.pt, s.to)
      r2 == Closing(r1[1], I, O, E, t, ev.pt)
      r3 == EvFold(cfg, [r2[1] EXCEPT !.rn = rn], E, t, p, TRUE)
      s4 == IF Len(Ns) > 0 THEN [r3[1] EXCEPT !.tl = t, !.nn = @ + 1] ELSE r3[1]
      s5 == IF EvHas(E, "T") \/ EvHas(E, "V") \/ EvHas(E, "G") \/ EvHas(E, "F") THEN [s4 EXCEPT !.pend = FALSE] ELSE s4
      fl == Flushed(cfg, s, s5, E, t, p)
      pb == PeerBound(cfg, s5, t, p, s.to)
      dr == Drained(s5, ev.b, t)
      fs == FirstSeq(dr[1], O, t)
      k1 == V({}, cfg.ideal \in {1, 2} /\ s.conn /\ s.q0 < 0 /\ EvHas(E, "T"), IF cfg.ideal = 2 THEN "C10K" ELSE "C10", <<"timeout on a loss-free network", t, a>>)
      cf == Confirms(s, fs[1], I, O, E, t)
      ra == ReAck(cf[1], rn, Ans, As, t)
  IN [st EXCEPT !.cl[a] = ra[1],
                !.bi = SelectSeq(@, LAMBDA x : ~(x.d = 1 /\ x.a = a)), !.bo = SelectSeq(@, LAMBDA x : ~(x.d = 1 /\ x.a = a)),
                !.v = @ \cup h13 \cup r1[2] \cup r2[2] \cup r3[2] \cup fl \cup pb \cup dr[2] \cup fs[2] \cup k1 \cup cf[2] \cup ra[2]]

-----------------------------------------------------------------------------
(* API calls *)
Submit(s, ev) ==
  [s EXCEPT !.nul = @ \/ ev.z = 0, !.all = @ \cup {ev.u}, !.rel = IF ev.m = 3 /\ s.req = 0 THEN @ \cup {ev.u} ELSE @,
            !.due = IF ev.m # 0 /\ s.req = 0 THEN @ \cup {ev.u} ELSE @]

Request(s, ev, how) ==
  IF s.conn /\ s.q0 < 0
  THEN [s EXCEPT !.req = IF @ = 0 THEN how ELSE IF @ = how THEN how ELSE IF @ = 1 /\ how = 2 THEN 2 ELSE 3, !.treq = IF s.req = how THEN @ ELSE ev.t]
  ELSE IF s.pend THEN [s EXCEPT !.pend = FALSE, !.over = TRUE] ELSE s

Api(cfg, st, ev) ==
  LET a == ev.a IN
  CASE ev.op = "connect" ->
         [st EXCEPT !.cl[a] = [Side0 EXCEPT !.pend = TRUE, !.real = TRUE, !.t0 = ev.t, !.tl = ev.t, !.r = ev.r, !.p = ev.p, !.w = ev.w, !.to = ev.to]]
    [] ev.op = "send" -> IF ev.d = 1 THEN [st EXCEPT !.cl[a] = Submit(@, ev)] ELSE [st EXCEPT !.sv[a] = Submit(@, ev)]
    [] ev.op = "disc" -> IF ev.d = 1 THEN [st EXCEPT !.cl[a] = Request(@, ev, 1)] ELSE [st EXCEPT !.sv[a] = Request(@, ev, 1)]
    [] ev.op = "now"  -> IF ev.d = 1 THEN [st EXCEPT !.cl[a] = Request(@, ev, 2)] ELSE [st EXCEPT !.sv[a] = Request(@, ev, 2)]
    [] ev.op = "drop" -> IF ev.d = 1
                         THEN [st EXCEPT !.cl[a].conn = FALSE, !.cl[a].pend = FALSE, !.cl[a].over = TRUE, !.cl[a].req = 3]
                         ELSE [st EXCEPT !.sv[a].conn = FALSE, !.sv[a].pend = FALSE, !.sv[a].over = TRUE, !.sv[a].te = ev.t, !.sv[a].gone = TRUE, !.sv[a].ask = FALSE,
                                         !.sv[a].req = 3, !.tr = @ \ {a}, !.ac = @ \ {a}]
    [] OTHER -> st

Emit(cfg, st, ev) ==
  \* The first SYN is emitted by connect(), not by a step
  IF ev.d = 1 /\ ev.k = "N" /\ st.cl[ev.a].nn = 0
  THEN LET c == st.cl[ev.a] IN
       Bad([st EXCEPT !.cl[ev.a].nn = 1, !.cl[ev.a].n = ev.n],
           ev.r # c.r \/ ev.p # c.p \/ ev.w # c.w \/ ev.x # Version, "C07", <<"connection request misstates the limits", ev.a>>)
  ELSE [st EXCEPT !.bo = Append(@, ev)]

AllProps == {"C03", "C05", "C07", "C08", "C09", "C10", "C17", "C18", "C19"}

EStep(cfg, st, ev) ==
  CASE ev.e = "i" -> [st EXCEPT !.bi = Append(@, ev)]
    [] ev.e = "o" -> Emit(cfg, st, ev)
    [] ev.e = "p" -> Api(cfg, st, ev)
    [] ev.e = "x" -> IF ev.d = 0 THEN SrvStep(cfg, st, ev) ELSE ClStep(cfg, st, ev)
    [] ev.e = "P" -> [st EXCEPT !.v = @ \cup { <<q, <<"panic", ev.m>>>> : q \in AllProps }]
    [] ev.e = "H" -> [st EXCEPT !.v = @ \cup { <<q, <<"call does not return">>>> : q \in AllProps }]
    [] OTHER -> st

Violates(st, prop) == \E x \in st.v : x[1] = prop
=============================================================================
