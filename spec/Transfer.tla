------------------------------ MODULE Transfer ------------------------------
(***************************************************************************)
(* The packet transfer protocol of one direction of a connection, as a     *)
(* state machine: packet sender, frame log, frame window, resend queue,    *)
(* the network, packet receiver (assembly, per-channel delivery, window    *)
(* advancement) and acknowledgements.                                      *)
(*                                                                         *)
(* Abstractions: a fragment is a number, a frame carries one fragment,     *)
(* sizes count fragments.  Time is replaced by nondeterminism: a fragment  *)
(* may be resent, a frame forgotten, a synchronisation frame sent whenever *)
(* the code could do so after some delay.  The network may lose, delay,    *)
(* repeat and reorder: whatever was ever sent can arrive at any time.      *)
(* Packet ids are modulo M, as they are (modulo 2^20) in the code.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS
  W,         \* packet window
  M,         \* number of packet ids
  FW,        \* frame window
  Chan,      \* channels
  Modes,     \* send modes in use
  PkMax,     \* packets submitted at most
  FragMax,   \* fragments per packet at most
  Alloc,     \* receive allocation, in fragments
  DataMax,   \* data frames, ...
  AckMax,    \* acknowledgement frames, ...
  SyncMax,   \* and synchronisation frames sent at most
  Base,      \* first packet id
  Bug        \* "none", or a defect of the protocol (to show that the invariants are not vacuous)

TS == 0
UN == 1
PE == 2
RE == 3

Sub(a, b) == (a - b + M) % M
Add(a, n) == (a + n) % M
Idx(a) == a % W
Max2(a, b) == IF a > b THEN a ELSE b
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x

-----------------------------------------------------------------------------
(* The sender *)

SndInit ==
  [ pk   |-> <<>>,                       \* packets by uid: channel, mode, fragments, flush id; id and leads once emitted
    q    |-> <<>>,                       \* send queue (uids)
    base |-> Base, next |-> Base,        \* packet window
    win  |-> <<>>,                       \* uids in the window
    wpar |-> -1, cpar |-> [c \in Chan |-> -1],
    pend |-> <<>>,                       \* fragments not sent yet
    rs   |-> {},                         \* fragments to be resent until acknowledged
    ack  |-> {},                         \* fragments acknowledged
    log  |-> <<>>, lb |-> 0,             \* frames sent, the first one remembered
    wb   |-> 0,                          \* frame window base
    tick |-> 0,                          \* flush id
    gone |-> {},                         \* TimeSensitive packets dropped
    np   |-> 0 ]                         \* packets which left the window

Submit(s, c, m, n) ==
  [s EXCEPT !.pk = Append(@, [c |-> c, m |-> m, n |-> n, t |-> s.tick, e |-> -1, pid |-> -1, wl |-> 0, cl |-> 0]),
            !.q = Append(@, Len(s.pk) + 1)]

RECURSIVE DropStale(_)
DropStale(s) ==
  IF s.q # <<>> /\ s.pk[s.q[1]].m = TS /\ s.pk[s.q[1]].t # s.tick /\ Bug # "stale-ts"
  THEN DropStale([s EXCEPT !.q = Tail(@), !.gone = @ \cup {s.q[1]}]) ELSE s

Held(s) == FoldLeft(LAMBDA a, u : a + s.pk[u].n, 0, s.win)
CanEmit(s) == /\ s.q # <<>>
              /\ Sub(s.next, s.base) < (IF Bug = "window" THEN W + 1 ELSE W)
              /\ Held(s) + s.pk[s.q[1]].n <= (IF Bug = "alloc" THEN Alloc + 1 ELSE Alloc)

EmitPacket(s) ==
  LET u == s.q[1]  id == s.next  c == s.pk[u].c
      lead(p) == IF p = -1 THEN 0 ELSE Sub(id, p)
      r == s.pk[u].m = RE
  IN [s EXCEPT !.q = Tail(@), !.next = Add(@, 1), !.win = Append(@, u),
               !.pk[u].pid = id, !.pk[u].e = s.tick, !.pk[u].wl = lead(s.wpar), !.pk[u].cl = lead(s.cpar[c]),
               !.wpar = IF r THEN id ELSE @, !.cpar[c] = IF r THEN id ELSE @,
               !.pend = [k \in 1..s.pk[u].n |-> <<u, k - 1>>]]

InWin(s, u) == \E k \in 1..Len(s.win) : s.win[k] = u
Resends(s) == { x \in s.rs : InWin(s, x[1]) /\ (x \notin s.ack \/ Bug = "resend-acked") }

RECURSIVE Load(_)
Load(s) ==
  IF s.pend # <<>> /\ (~InWin(s, s.pend[1][1]) \/ s.pend[1] \in s.ack) THEN Load([s EXCEPT !.pend = Tail(@)])
  ELSE IF s.pend = <<>> THEN LET d == DropStale(s) IN IF CanEmit(d) THEN EmitPacket(d) ELSE d
  ELSE s

FrameRoom(s) == Len(s.log) - s.wb < FW

Transmit(s, x) == [s EXCEPT !.log = Append(@, x)]
SendPending(s) ==      \* of a loaded sender
  LET x == s.pend[1] IN
  [Transmit(s, x) EXCEPT !.pend = Tail(@), !.rs = IF s.pk[x[1]].m \in {PE, RE} \/ Bug = "resend-all" THEN @ \cup {x} ELSE @]

Forget(s) == [s EXCEPT !.lb = @ + 1]

RECURSIVE Release(_, _)
Release(s, b) ==
  IF s.base = b THEN s ELSE
  LET u == s.win[1]  c == s.pk[u].c IN
  Release([s EXCEPT !.base = Add(@, 1), !.win = Tail(@), !.np = @ + 1,
                    !.wpar = IF @ = s.base /\ Bug # "wpar" THEN -1 ELSE @,
                    !.cpar[c] = IF @ = s.base /\ Bug # "cpar" THEN -1 ELSE @], b)

TakeAck(s, a) ==
  LET known == \A f \in a.ids : f >= s.lb /\ f < Len(s.log)
      s1 == IF known THEN [s EXCEPT !.ack = @ \cup { s.log[f + 1] : f \in { g \in a.ids : g < Len(s.log) } }] ELSE s
      s2 == IF a.fb > s1.wb /\ a.fb <= Len(s1.log) THEN [s1 EXCEPT !.wb = a.fb] ELSE s1
      d  == Sub(a.pb, s2.base)
  IN IF d <= Sub(s2.next, s2.base) THEN Release(s2, a.pb) ELSE s2

SyncFrame(s) ==
  [ f |-> IF Len(s.log) # s.wb THEN Len(s.log) ELSE -1,
    p |-> IF s.next # s.base /\ (Resends(s) = {} \/ Bug = "early-sync") /\ s.pend = <<>> THEN s.next ELSE -1,
    a |-> s.np ]

-----------------------------------------------------------------------------
(* The receiver *)

NoSlot == [k |-> "open"]
NoEnt == [k |-> "none"]

RcvInit ==
  [ base |-> Base, end |-> Base,
    slot |-> [i \in 0..W - 1 |-> NoSlot],     \* assembly window
    ent  |-> [i \in 0..W - 1 |-> NoEnt],      \* completed packets: channel, leads, awaiting delivery (d)
    chb  |-> [c \in Chan |-> -1],             \* channel bases
    rdy  |-> {}, wrdy |-> FALSE,
    fb   |-> 0, aq |-> {}, reply |-> FALSE,
    out  |-> <<>>,                            \* packets delivered
    dud  |-> FALSE,                           \* a packet was discarded for lack of memory
    err  |-> FALSE,                           \* an internal assertion would have failed
    nb   |-> 0 ]                              \* ids the window has moved past

AllocOfSlot(x) == IF x.k = "open" THEN 0 ELSE x.al
RAlloc(r) == LET F[i \in 0..W] == IF i = 0 THEN 0 ELSE F[i - 1] + AllocOfSlot(r.slot[i - 1]) IN F[W]

(* A completed packet (uid 0: mixed contents, -1: discarded) enters the receive window *)
Complete(r, id, c, wl, cl, u) ==
  LET i == Idx(id)
      cb == IF r.chb[c] = -1 THEN r.base ELSE r.chb[c]
      cd == Sub(id, cb)
      wd == Sub(id, r.base)
  IN [r EXCEPT !.ent[i] = [k |-> "ent", c |-> c, wl |-> wl, cl |-> cl, d |-> TRUE, u |-> u],
               !.end = IF Sub(id, r.end) < W THEN Add(id, 1) ELSE @,
               !.rdy = IF cl = 0 \/ cl > cd THEN @ \cup {c} ELSE @,
               !.wrdy = @ \/ wl = 0 \/ wl > wd]

(* A datagram: id, channel c, leads wl cl, fragment k of 0..last, contents u *)
Datagram(r, g) ==
  LET cb == IF r.chb[g.c] = -1 THEN r.base ELSE r.chb[g.c]
      i  == Idx(g.pid)
      x  == r.slot[i]
      n  == g.last + 1
  IN IF g.cl # 0 /\ (g.wl = 0 \/ g.cl < g.wl) THEN r
     ELSE IF Sub(g.pid, r.base) >= W THEN r
     ELSE IF Sub(g.pid, r.base) < Sub(cb, r.base) /\ Bug # "channel-base" THEN r
     ELSE IF x.k = "open" THEN
       IF RAlloc(r) + n > Alloc THEN Complete([r EXCEPT !.slot[i] = [k |-> "closed", al |-> 0], !.dud = TRUE], g.pid, g.c, g.wl, g.cl, -1)
       ELSE IF n = 1 THEN Complete([r EXCEPT !.slot[i] = [k |-> "closed", al |-> n]], g.pid, g.c, g.wl, g.cl, g.u)
       ELSE [r EXCEPT !.slot[i] = [k |-> "active", al |-> n, c |-> g.c, wl |-> g.wl, cl |-> g.cl, last |-> g.last,
                                   got |-> [j \in {g.k} |-> g.u]]]
     ELSE IF x.k = "closed" THEN r
     ELSE IF <<x.c, x.wl, x.cl, x.last>> # <<g.c, g.wl, g.cl, g.last>> THEN r
     ELSE LET got == [j \in DOMAIN x.got \cup {g.k} |-> IF j \in DOMAIN x.got THEN x.got[j] ELSE g.u] IN
          IF Cardinality(DOMAIN got) = n
          THEN LET us == { got[j] : j \in DOMAIN got } IN
               Complete([r EXCEPT !.slot[i] = [k |-> "closed", al |-> x.al]], g.pid, g.c, g.wl, g.cl, IF Cardinality(us) = 1 THEN SetMax(us) ELSE 0)
          ELSE [r EXCEPT !.slot[i].got = got]

Advance(r, b) ==
  LET ids == { id \in 0..M - 1 : Sub(id, r.base) < Sub(b, r.base) }
      idx == { Idx(id) : id \in ids }
      cbs == { Add(id, 1) : id \in ids }       \* channel bases reached by the window
  IN [r EXCEPT !.base = b, !.nb = @ + Sub(b, r.base),
               !.end = IF Sub(r.end, r.base) < Sub(b, r.base) THEN b ELSE @,
               !.slot = [i \in DOMAIN @ |-> IF i \in idx THEN NoSlot ELSE @[i]],
               !.ent = [i \in DOMAIN @ |-> IF i \in idx THEN NoEnt ELSE @[i]],
               \* a marker which is passed must not survive
               !.chb = [c \in Chan |-> IF @[c] \in cbs /\ Bug # "marker" THEN -1 ELSE @[c]],
               !.err = @ \/ Sub(b, r.base) > W]

RECURSIVE Walk(_, _, _)
Walk(r, b0, id) ==
  IF id = r.end THEN r ELSE
  LET e == r.ent[Idx(id)] IN
  IF e.k = "none" \/ ~e.d \/ e.c \notin r.rdy THEN Walk(r, b0, Add(id, 1)) ELSE
  LET cb == IF r.chb[e.c] = -1 THEN b0 ELSE r.chb[e.c] IN
  IF e.cl = 0 \/ e.cl > Sub(id, cb) \/ Bug = "parent"
  THEN LET i == Idx(id)
           ent == [r.ent EXCEPT ![i].d = FALSE]
           more == \E j \in 0..W - 1 : ent[j].k = "ent" /\ ent[j].d /\ ent[j].c = e.c
       IN Walk([r EXCEPT !.ent = ent, !.out = IF e.u = -1 THEN @ ELSE Append(@, e.u),
                         !.rdy = IF more THEN @ ELSE @ \ {e.c},
                         !.err = @ \/ \E c \in Chan \ {e.c} : r.chb[c] # -1 /\ Idx(r.chb[c]) = Idx(Add(id, 1)),
                         !.chb[e.c] = Add(id, 1)], b0, Add(id, 1))
  ELSE Walk([r EXCEPT !.rdy = @ \ {e.c}], b0, Add(id, 1))

RECURSIVE NewBase(_, _, _)
NewBase(r, nb, id) ==
  IF id = r.end THEN nb ELSE
  LET e == r.ent[Idx(id)] IN
  IF e.k = "none" THEN NewBase(r, nb, Add(id, 1))
  ELSE IF e.d THEN nb
  ELSE IF e.wl = 0 \/ e.wl > Sub(id, nb) \/ Bug = "window-parent" THEN NewBase(r, Add(id, 1), Add(id, 1))
  ELSE nb

Receive(r) ==
  LET r1 == Walk(r, r.base, r.base) IN
  IF ~r1.wrdy THEN r1 ELSE Advance([r1 EXCEPT !.wrdy = FALSE], NewBase(r1, r1.base, r1.base))

RECURSIVE FirstWaiting(_, _, _)
FirstWaiting(r, id, n) == IF id = n \/ (r.ent[Idx(id)].k = "ent" /\ Bug # "sync-skips") THEN id ELSE FirstWaiting(r, Add(id, 1), n)

TakeSync(r, y) ==
  LET r1 == IF y.f > r.fb THEN [r EXCEPT !.fb = y.f] ELSE r
      r2 == IF y.p = -1 \/ Sub(y.p, r1.base) > W THEN r1 ELSE Advance(r1, FirstWaiting(r1, r1.base, y.p))
  IN [r2 EXCEPT !.reply = TRUE]

TakeData(r, f, g) ==
  IF f < r.fb \/ f - r.fb >= FW THEN r
  ELSE Datagram([r EXCEPT !.fb = f + 1, !.aq = @ \cup {f}], g)

AckFrame(r) == [fb |-> r.fb, pb |-> r.base, ids |-> r.aq, a |-> r.nb]
AckSent(r) == [r EXCEPT !.aq = {}, !.reply = FALSE]

-----------------------------------------------------------------------------
(* The whole *)
Header(s, x) == LET p == s.pk[x[1]] IN [pid |-> p.pid, c |-> p.c, wl |-> p.wl, cl |-> p.cl, k |-> x[2], last |-> p.n - 1, u |-> x[1]]

VARIABLES s, r, an, yn, act
vars == <<s, r, an, yn, act>>
(* an, yn: acknowledgement and synchronisation frames sent; act: what just happened *)

(* Packet ids are reused: nothing may stay in the network while M - W packets are transferred. *)
(* (With the constants of the code: more than 10^6 packets.)                                   *)
Fresh(a, b) == b - a < M - W

Init == s = SndInit /\ r = RcvInit /\ an = <<>> /\ yn = <<>> /\ act = <<"init">>

DoSubmit == \E c \in Chan, m \in Modes, n \in 1..FragMax :
  /\ Len(s.pk) < PkMax
  /\ s' = Submit(s, c, m, n)
  /\ act' = <<"S", c, m, n>>
  /\ UNCHANGED <<r, an, yn>>

DoSend == LET l == Load(s) IN
  /\ Len(s.log) < DataMax /\ FrameRoom(s) /\ l.pend # <<>>
  /\ s' = SendPending(l)
  /\ act' = <<"D">>
  /\ UNCHANGED <<r, an, yn>>

DoResend == \E x \in Resends(s) :
  /\ Len(s.log) < DataMax /\ FrameRoom(s)
  /\ s' = Transmit(s, x)
  /\ act' = <<"D">>
  /\ UNCHANGED <<r, an, yn>>

DoStep ==       \* TimeSensitive packets become stale
  /\ \E k \in 1..Len(s.q) : s.pk[s.q[k]].m = TS /\ s.pk[s.q[k]].t = s.tick
  /\ s' = [s EXCEPT !.tick = @ + 1]
  /\ act' = <<"X">>
  /\ UNCHANGED <<r, an, yn>>

DoForget ==
  /\ s.lb < Len(s.log)
  /\ s' = Forget(s)
  /\ act' = <<"f">>
  /\ UNCHANGED <<r, an, yn>>

DoSync ==
  /\ Len(yn) < SyncMax
  /\ LET y == SyncFrame(s) IN (y.f # -1 \/ y.p # -1) /\ yn' = Append(yn, y)
  /\ act' = <<"Y">>
  /\ UNCHANGED <<s, r, an>>

DoData == \E f \in r.fb..Len(s.log) - 1 :
  /\ r' = TakeData(r, f, Header(s, s.log[f + 1]))
  /\ act' = <<"d", s.log[f + 1][1], s.log[f + 1][2]>>
  /\ UNCHANGED <<s, an, yn>>

DoTakeSync == \E j \in 1..Len(yn) :
  /\ Fresh(yn[j].a, r.nb)
  /\ r' = TakeSync(r, yn[j]) /\ r' # r
  /\ act' = <<"y", j>>
  /\ UNCHANGED <<s, an, yn>>

DoReceive ==
  /\ r' = Receive(r) /\ r' # r
  /\ act' = <<"R">>
  /\ UNCHANGED <<s, an, yn>>

DoAck ==
  /\ Len(an) < AckMax /\ (r.aq # {} \/ r.reply)
  /\ an' = Append(an, AckFrame(r))
  /\ r' = AckSent(r)
  /\ act' = <<"K">>
  /\ UNCHANGED <<s, yn>>

DoTakeAck == \E j \in 1..Len(an) :
  /\ Fresh(an[j].a, s.np)
  /\ s' = TakeAck(s, an[j]) /\ s' # s
  /\ act' = <<"k", j>>
  /\ UNCHANGED <<r, an, yn>>

Next == DoSubmit \/ DoSend \/ DoResend \/ DoStep \/ DoForget \/ DoSync \/ DoData \/ DoTakeSync \/ DoReceive \/ DoAck \/ DoTakeAck
Spec == Init /\ [][Next]_vars
ChanSym == Permutations(Chan)
View == <<s, r, { an[j] : j \in 1..Len(an) }, { yn[j] : j \in 1..Len(yn) }, Len(an), Len(yn)>>

-----------------------------------------------------------------------------
(* What the properties demand *)
Outs == { r.out[k] : k \in 1..Len(r.out) }

(* C01, C04 *)
InOrder == /\ 0 \notin Outs
           /\ \A i, j \in 1..Len(r.out) : i < j => r.out[i] # r.out[j] /\ (s.pk[r.out[i]].c = s.pk[r.out[j]].c => r.out[i] < r.out[j])
(* C02 *)
NotSkipped == \A k \in 1..Len(r.out) : \A w \in 1..r.out[k] - 1 :
                s.pk[w].m = RE /\ s.pk[w].c = s.pk[r.out[k]].c => \E j \in 1..k - 1 : r.out[j] = w
Released == \A w \in 1..Len(s.pk) : s.pk[w].m = RE /\ s.pk[w].pid # -1 /\ ~InWin(s, w) => w \in Outs
(* C03: no internal assertion fails *)
NoError == ~r.err
(* C06 *)
InLimits == Held(s) <= Alloc /\ Len(s.win) <= W /\ RAlloc(r) <= Alloc /\ ~r.dud
(* C12, C15 *)
AckGenuine == \A x \in s.ack : \E f \in 1..Len(s.log) : s.log[f] = x /\ f <= r.fb
SentOnce == \A i, j \in 1..Len(s.log) : i < j /\ s.log[i] = s.log[j] => s.pk[s.log[i][1]].m \in {PE, RE}
GivesUpOnly == s.pend = <<>> /\ Resends(s) = {} => \A k \in 1..Len(s.win) : s.pk[s.win[k]].m \in {PE, RE} =>
                  \A j \in 0..s.pk[s.win[k]].n - 1 : <<s.win[k], j>> \in s.ack
(* C12: a TimeSensitive packet is sent at once or not at all *)
InTime == \A u \in 1..Len(s.pk) : s.pk[u].m = TS /\ s.pk[u].pid # -1 => s.pk[u].e = s.pk[u].t
(* C20: the packets counted are those queued and those in the window *)
Counted == LET q == { s.q[k] : k \in 1..Len(s.q) }  w == { s.win[k] : k \in 1..Len(s.win) } IN
           \A u \in 1..Len(s.pk) : (u \in q \cup w) <=> ~(u \in s.gone \/ (s.pk[u].pid # -1 /\ u \notin w))

(* No resend after the acknowledgement has been processed (C12) *)
NoResend == [][act'[1] = "D" /\ s'.log[Len(s'.log)] \in s.rs => s'.log[Len(s'.log)] \notin s.ack]_vars

-----------------------------------------------------------------------------
(* C02, C11: from every state a loss-free network leads to completion, whatever was lost before: *)
(* a fixed number of fair rounds (send all, deliver all, receive, acknowledge, synchronise)      *)
RECURSIVE SendAll(_)
SendAll(p) ==       \* p = <<sender, receiver>>; every frame arrives at once
  LET l == Load(p[1]) IN
  IF ~FrameRoom(l) \/ l.pend = <<>> THEN <<l, p[2]>> ELSE
  LET s1 == SendPending(l)  f == Len(l.log) IN SendAll(<<s1, TakeData(p[2], f, Header(s1, s1.log[f + 1]))>>)

RECURSIVE ResendAll(_, _)
ResendAll(p, X) ==
  IF X = {} \/ ~FrameRoom(p[1]) THEN p ELSE
  LET x == CHOOSE x \in X : \A y \in X : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
      s1 == Transmit(p[1], x)  f == Len(p[1].log)
  IN ResendAll(<<s1, TakeData(p[2], f, Header(s1, x))>>, X \ {x})

Answer(p) == LET r1 == Receive(p[2]) IN <<TakeAck(p[1], AckFrame(r1)), AckSent(r1)>>

Round(p) ==
  LET p1 == ResendAll(p, Resends(p[1]))
      p2 == Answer(SendAll(p1))
      y  == SyncFrame(p2[1])
  IN Answer(<<p2[1], TakeSync(p2[2], y)>>)

RECURSIVE Rounds(_, _)
Rounds(p, n) == IF n = 0 THEN p ELSE Rounds(Round(p), n - 1)

Drained(p) == /\ p[1].q = <<>> /\ p[1].win = <<>> /\ p[1].pend = <<>> /\ Len(p[1].log) = p[1].wb
              /\ \A u \in 1..Len(p[1].pk) : p[1].pk[u].m = RE => \E k \in 1..Len(p[2].out) : p[2].out[k] = u

Recovers == Drained(Rounds(<<s, r>>, 2 * PkMax + 2))
RecoversNow == TLCGet("level") % 16 = 0 => Recovers      \* for simulation
=============================================================================
