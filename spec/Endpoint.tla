------------------------------ MODULE Endpoint ------------------------------
(***************************************************************************)
(* Connection management as a state machine: one server, a client at each  *)
(* address, the handshake, connection limits, timeouts, disconnection.     *)
(*                                                                         *)
(* Time is counted in ticks; the clock advances only when every endpoint   *)
(* has stepped since the last tick ("step is called regularly").  Datagrams*)
(* are never removed from the network: they may be lost, delayed, repeated *)
(* and reordered at will, and forged ones which do not know a nonce may be *)
(* added.  Data transfer is reduced to counters of Reliable packets.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

CONSTANTS
  A,         \* addresses (positive numbers); the number is the nonce of the client as well
  Kinds,     \* 0 compatible, 1 another protocol version, 2 incompatible limits
  MT, MA,    \* connection limits of the server
  Retry,     \* ticks between transmissions of a request
  Tries,     \* repetitions
  TO,        \* active timeout
  ClosedT,   \* how long a closed connection is remembered
  MaxNow, PkMax, InMax, HsMax,
  Forge,     \* TRUE: forged handshake frames
  Ops,       \* API calls in use: Q disconnect, N disconnect_now, P drop
  Bug        \* "none", or a defect (to show that the invariants are not vacuous)

Budget == (Tries + 1) * Retry

VARIABLES g, act
vars == <<g, act>>

Cl0 == [k |-> "idle", kind |-> 0, t0 |-> 0, due |-> 0, cnt |-> 0, sn |-> 0, req |-> 0, out |-> 0, outd |-> 0, ack |-> 0, got |-> 0,
        ans |-> FALSE, th |-> 0, w |-> "0"]
Sv0 == [k |-> "none", t0 |-> 0, due |-> 0, cnt |-> 0, n |-> 0, rn |-> 0, req |-> 0, out |-> 0, outd |-> 0, ack |-> 0, got |-> 0,
        ans |-> FALSE, th |-> 0]
(* What is remembered about an address for ever: word of events, handshakes begun, bytes received minus bytes sent *)
Ad0 == [w |-> "0", hs |-> 0, bal |-> 0, ver |-> FALSE]

G0 == [ now |-> 0, cl |-> [a \in A |-> Cl0], sv |-> [a \in A |-> Sv0], ad |-> [a \in A |-> Ad0],
        net |-> {}, lag |-> {}, bad |-> {} ]

Bad(x, c, what) == IF c THEN [x EXCEPT !.bad = @ \cup {what}] ELSE x

Size(m) == CASE m[1] = "N" -> 1472 [] m[1] = "B" -> 25 [] m[1] = "E" -> 10 [] m[1] = "A" -> 9 [] m[1] \in {"Q", "q"} -> 5 [] OTHER -> 30
Cap(n) == IF n > 1472 THEN 1472 ELSE n     \* (an abstraction on the safe side)

ToServer(x, a, m) == [x EXCEPT !.net = @ \cup {<<1, a, m>>}]
ToClient(x, a, m) == Bad([x EXCEPT !.net = @ \cup {<<0, a, m>>}, !.ad[a].bal = IF x.ad[a].ver THEN @ ELSE @ - Size(m)],
                         ~x.ad[a].ver /\ x.ad[a].bal - Size(m) <= 0, "C18")

-----------------------------------------------------------------------------
(* Events seen by the applications (C08, C09, C07) *)

SrvEvent(x, a, e) ==
  LET w == x.ad[a].w  s == x.sv[a]  c == x.cl[a]
      x1 == CASE e = "C" -> Bad(Bad([x EXCEPT !.ad[a].w = "c", !.ad[a].ver = TRUE], w = "c", "C08"), c.sn # s.n, "C07")
              [] e = "R" -> Bad(x, w # "c", "C08")
              [] e = "D" -> Bad([x EXCEPT !.ad[a].w = "e"], w # "c", "C08")
              [] OTHER   -> Bad([x EXCEPT !.ad[a].w = "e"], w = "c" /\ e # "T", "C08")
  IN Bad(x1, e = "D" /\ s.req = 0 /\ c.req = 1 /\ c.sn = s.n /\ s.got < c.outd, "C09")

ClEvent(x, a, e) ==
  LET c == x.cl[a]  s == x.sv[a]
      x1 == CASE e = "C" -> Bad([x EXCEPT !.cl[a].w = "c"], c.w # "0", "C08")
              [] e \in {"R", "D"} -> Bad([x EXCEPT !.cl[a].w = IF e = "D" THEN "e" ELSE @], c.w # "c", "C08")
              [] OTHER   -> Bad([x EXCEPT !.cl[a].w = "e"], c.w = "e" \/ (c.w = "c" /\ e # "T"), "C08")
  IN Bad(x1, e = "D" /\ c.req = 0 /\ s.req = 1 /\ c.sn = s.n /\ c.got < s.outd, "C09")

-----------------------------------------------------------------------------
(* The server *)

Tracked(x) == { a \in A : x.sv[a].k # "none" }
Reserved(x) == { a \in A : x.sv[a].k \in (IF Bug = "count-pending" THEN {"act"} ELSE {"pend", "act"}) }
Active(x) == { a \in A : x.sv[a].k = "act" }

SForget(x, a) == [x EXCEPT !.sv[a] = Sv0]
SClosed(x, a) == IF Bug = "forget-early" THEN SForget(x, a) ELSE [x EXCEPT !.sv[a].k = "closed", !.sv[a].due = x.now + ClosedT, !.sv[a].t0 = x.now]

Nonce(x, a) == 100 * a + x.ad[a].hs + 1

SrvSyn(x, a, m) ==
  LET s == x.sv[a]
      refuse(c, e) == SrvEvent(ToClient(x, a, <<"E", m[2], c>>), a, e)
  IN IF s.k # "none" /\ ~(Bug = "restart" /\ s.k = "pend") THEN x
     ELSE IF m[3] = 1 THEN refuse(0, "V")
     ELSE IF Cardinality(Tracked(x)) >= MT \/ Cardinality(Reserved(x)) >= MA THEN refuse(2, "F")
     ELSE IF m[3] = 2 THEN refuse(1, "G")
     ELSE ToClient([x EXCEPT !.sv[a] = [Sv0 EXCEPT !.k = "pend", !.n = Nonce(x, a), !.rn = m[2], !.due = x.now + Retry, !.cnt = Tries, !.t0 = x.now],
                             !.ad[a].hs = @ + 1],
                   a, <<"B", Nonce(x, a), m[2]>>)

SrvAck(x, a, m) ==
  LET s == x.sv[a] IN
  IF s.k = "pend" /\ (m[2] = s.n \/ Bug = "any-ack")
  THEN SrvEvent([x EXCEPT !.sv[a].k = "act", !.sv[a].th = x.now], a, "C") ELSE x

SrvDisc(x, a) ==
  LET s == x.sv[a] IN
  CASE s.k = "act" -> SClosed(SrvEvent(ToClient(x, a, <<"q", 0, 0>>), a, "D"), a)
    [] s.k = "closing" -> SClosed(SrvEvent(ToClient(x, a, <<"q", 0, 0>>), a, "D"), a)
    [] s.k = "closed" -> IF Bug = "twice" THEN SrvEvent(x, a, "D") ELSE ToClient(x, a, <<"q", 0, 0>>)
    [] OTHER -> x

SrvDiscAck(x, a) == IF x.sv[a].k = "closing" THEN SForget(SrvEvent(x, a, "D"), a) ELSE x

SrvData(x, a, m) ==
  LET s == x.sv[a]  new == m[3] = s.rn /\ m[2] > s.got IN
  IF s.k # "act" THEN (IF Bug = "late-data" /\ s.k = "closed" THEN SrvEvent(x, a, "R") ELSE x)
  ELSE LET y == [x EXCEPT !.sv[a].th = x.now, !.sv[a].ans = m[3] = s.rn, !.sv[a].got = IF new THEN m[2] ELSE @] IN
       IF new THEN SrvEvent(y, a, "R") ELSE y

SrvDataAck(x, a, m) ==
  LET s == x.sv[a] IN
  IF s.k # "act" THEN x ELSE [x EXCEPT !.sv[a].th = x.now, !.sv[a].ack = IF m[3] = s.rn /\ m[2] > @ /\ m[2] <= s.out THEN m[2] ELSE @]

SrvFrame(x0, am) ==
  LET a == am[1]  m == am[2]  x == [x0 EXCEPT !.ad[a].bal = IF x0.ad[a].ver THEN @ ELSE IF m[1] = "N" THEN Cap(@ + Size(m)) ELSE @] IN
  CASE m[1] = "N" -> SrvSyn(x, a, m)
    [] m[1] = "A" -> SrvAck(x, a, m)
    [] m[1] = "Q" -> SrvDisc(x, a)
    [] m[1] = "q" -> SrvDiscAck(x, a)
    [] m[1] = "F" -> SrvData(x, a, m)
    [] m[1] = "K" -> SrvDataAck(x, a, m)
    [] OTHER -> x

SrvFlush(x, a) ==
  LET s == x.sv[a]
      x1 == IF s.ans THEN ToClient([x EXCEPT !.sv[a].ans = FALSE], a, <<"K", s.got, s.n>>) ELSE x
  IN IF s.k # "act" THEN x
     ELSE IF s.out > s.ack THEN ToClient(x1, a, <<"F", s.out, s.n>>) ELSE x1

SrvTimer(x, a) ==
  LET s == x.sv[a] IN
  CASE s.k = "pend" /\ x.now >= s.due ->
         IF s.cnt > 0 \/ Bug = "endless-synack"
         THEN ToClient([x EXCEPT !.sv[a].cnt = IF @ > 0 THEN @ - 1 ELSE 0, !.sv[a].due = x.now + Retry], a, <<"B", s.n, s.rn>>)
         ELSE SForget(SrvEvent(Bad(x, x.now - s.t0 < Budget, "C10"), a, "T"), a)
    [] s.k = "closing" /\ x.now >= s.due ->
         IF s.cnt > 0 THEN ToClient([x EXCEPT !.sv[a].cnt = @ - 1, !.sv[a].due = x.now + Retry], a, <<"Q", 0, 0>>)
         ELSE SForget(SrvEvent(Bad(x, x.now - s.t0 < Budget, "C10"), a, "T"), a)
    [] s.k = "closed" /\ x.now >= s.due -> IF Bug = "no-forget" THEN x ELSE SForget(x, a)
    [] s.k = "act" /\ x.now >= s.th + TO -> SForget(SrvEvent(x, a, "T"), a)
    [] OTHER -> x

SrvUser(x, a) ==
  LET s == x.sv[a] IN
  IF s.k = "act" /\ (s.req = 2 \/ (s.req = 1 /\ (s.out = s.ack \/ Bug = "no-flush")))
  THEN ToClient([x EXCEPT !.sv[a].k = "closing", !.sv[a].due = x.now + Retry, !.sv[a].cnt = Tries, !.sv[a].t0 = x.now], a, <<"Q", 0, 0>>)
  ELSE x

Order(S) == SetToSortSeq(S, LAMBDA p, q : p < q)
EachA(F(_, _), x) == FoldLeft(F, x, Order(A))

SrvStep(x, q) ==
  LET x1 == EachA(SrvFlush, x)
      x2 == FoldLeft(SrvFrame, x1, q)
      x3 == EachA(SrvTimer, x2)
  IN [EachA(SrvUser, x3) EXCEPT !.lag = @ \cup {0}]

-----------------------------------------------------------------------------
(* The client at address a *)

ClFrame(x, a, m) ==
  LET c == x.cl[a] IN
  CASE m[1] = "B" ->
         IF c.k = "pend" /\ (m[3] = a \/ Bug = "any-synack")
         THEN ToServer(ClEvent([Bad(x, ~(m[2] \div 100 = a /\ m[3] = a), "C07") EXCEPT !.cl[a].k = "act", !.cl[a].sn = m[2], !.cl[a].th = x.now], a, "C"), a, <<"A", m[2], 0>>)
         ELSE IF c.k = "act" /\ m[3] = a /\ m[2] = c.sn THEN ToServer(x, a, <<"A", m[2], 0>>)
         ELSE x
    [] m[1] = "E" ->
         IF c.k = "pend" /\ (m[2] = a \/ Bug = "any-error")
         THEN ClEvent([Bad(x, m[2] # a \/ (m[3] = 0 /\ c.kind # 1) \/ (m[3] = 1 /\ c.kind # 2), "C07") EXCEPT !.cl[a].k = "fin"], a, <<"V", "G", "F">>[m[3] + 1])
         ELSE x
    [] m[1] = "Q" ->
         (CASE c.k \in {"act", "closing"} ->
                [ToServer(ClEvent(x, a, "D"), a, <<"q", 0, 0>>) EXCEPT !.cl[a].k = "closed", !.cl[a].due = x.now + ClosedT]
           [] c.k = "closed" -> ToServer(x, a, <<"q", 0, 0>>)
           [] OTHER -> x)
    [] m[1] = "q" -> IF c.k = "closing" THEN [ClEvent(x, a, "D") EXCEPT !.cl[a].k = "fin"] ELSE x
    [] m[1] = "F" ->
         LET new == m[3] = c.sn /\ m[2] > c.got
             y == [x EXCEPT !.cl[a].th = x.now, !.cl[a].ans = m[3] = c.sn, !.cl[a].got = IF new THEN m[2] ELSE @]
         IN IF c.k # "act" THEN x ELSE IF new THEN ClEvent(y, a, "R") ELSE y
    [] m[1] = "K" ->
         IF c.k # "act" THEN x ELSE [x EXCEPT !.cl[a].th = x.now, !.cl[a].ack = IF m[3] = c.sn /\ m[2] > @ /\ m[2] <= c.out THEN m[2] ELSE @]
    [] OTHER -> x

ClFlush(x, a) ==
  LET c == x.cl[a]
      x1 == IF c.ans THEN ToServer([x EXCEPT !.cl[a].ans = FALSE], a, <<"K", c.got, a>>) ELSE x
  IN IF c.k # "act" THEN x
     ELSE IF c.out > c.ack THEN ToServer(x1, a, <<"F", c.out, a>>) ELSE x1

ClTimer(x, a) ==
  LET c == x.cl[a] IN
  CASE c.k = "pend" /\ x.now >= c.due ->
         IF c.cnt > 0 THEN ToServer([x EXCEPT !.cl[a].cnt = @ - 1, !.cl[a].due = x.now + Retry], a, <<"N", a, c.kind>>)
         ELSE [ClEvent(Bad(x, x.now - c.t0 < Budget, "C10"), a, "T") EXCEPT !.cl[a].k = "fin"]
    [] c.k = "closing" /\ x.now >= c.due ->
         IF c.cnt > 0 THEN ToServer([x EXCEPT !.cl[a].cnt = @ - 1, !.cl[a].due = x.now + Retry], a, <<"Q", 0, 0>>)
         ELSE [ClEvent(Bad(x, x.now - c.t0 < Budget, "C10"), a, "T") EXCEPT !.cl[a].k = "fin"]
    [] c.k = "closed" /\ x.now >= c.due -> [x EXCEPT !.cl[a].k = "fin"]
    [] c.k = "act" /\ x.now >= c.th + (IF Bug = "timeout-early" THEN TO - 1 ELSE TO) ->
         [ClEvent(Bad(x, x.now - c.th < TO, "C10"), a, "T") EXCEPT !.cl[a].k = "fin"]
    [] OTHER -> x

ClUser(x, a) ==
  LET c == x.cl[a] IN
  IF c.k = "act" /\ (c.req = 2 \/ (c.req = 1 /\ (c.out = c.ack \/ Bug = "no-flush")))
  THEN ToServer([x EXCEPT !.cl[a].k = "closing", !.cl[a].due = x.now + Retry, !.cl[a].cnt = IF Bug = "few" THEN Tries - 1 ELSE Tries, !.cl[a].t0 = x.now], a, <<"Q", 0, 0>>)
  ELSE x

ClStep(x, a, q) ==
  LET x1 == ClFlush(x, a)
      x2 == FoldLeft(LAMBDA y, m : ClFrame(y, a, m), x1, q)
  IN [ClUser(ClTimer(x2, a), a) EXCEPT !.lag = @ \cup {a}]

-----------------------------------------------------------------------------
(* Actions *)

(* Nobody knows a nonce which was not sent to him *)
Forged == IF Forge THEN UNION { { <<1, a, <<"N", 0, 0>>>>, <<1, a, <<"A", 0, 0>>>>, <<0, a, <<"B", 7, 0>>>>, <<0, a, <<"E", 0, 2>>>> } : a \in A } ELSE {}

Live(x, a) == x.cl[a].k \notin {"idle", "fin", "gone"}
OnTime(x) == 0 \in x.lag /\ \A a \in A : Live(x, a) => a \in x.lag

Init == g = G0 /\ act = <<"init">>

DoConnect == \E a \in A, k \in Kinds :
  /\ g.cl[a].k = "idle"
  /\ g' = ToServer([g EXCEPT !.cl[a] = [Cl0 EXCEPT !.k = "pend", !.kind = k, !.t0 = g.now, !.due = g.now + Retry, !.cnt = Tries], !.lag = @ \cup {a}], a, <<"N", a, k>>)
  /\ act' = <<"C", a, k>>

(* What arrives before a step: some sequence of datagrams *)
Seqs(S) == { <<>> } \cup { <<x>> : x \in S } \cup (IF InMax > 1 THEN { <<x, y>> : x \in S, y \in S } ELSE {})
Name(q) == FoldLeft(LAMBDA r, m : r \o m, <<>>, q)

DoSrv == \E q \in Seqs({ <<x[2], x[3]>> : x \in { y \in g.net \cup Forged : y[1] = 1 } }) :
  /\ g' = SrvStep(g, q) /\ g' # g
  /\ \A a \in A : g'.ad[a].hs <= HsMax
  /\ act' = <<"s">> \o Name([k \in 1..Len(q) |-> <<q[k][1]>> \o q[k][2]])

DoCl == \E a \in A : \E q \in Seqs({ x[3] : x \in { y \in g.net \cup Forged : y[1] = 0 /\ y[2] = a } }) :
  /\ Live(g, a) /\ g' = ClStep(g, a, q) /\ g' # g
  /\ act' = <<"c", a>> \o Name(q)

DoTick == /\ g.now < MaxNow /\ OnTime(g)
          /\ g' = [g EXCEPT !.now = @ + 1, !.lag = {}]
          /\ act' = <<"t">>

DoSubmit == \E a \in A, d \in {0, 1} :
  /\ IF d = 1 THEN g.cl[a].k \in {"pend", "act"} /\ g.cl[a].out < PkMax ELSE g.sv[a].k = "act" /\ g.sv[a].out < PkMax
  /\ g' = IF d = 1 THEN [g EXCEPT !.cl[a].out = @ + 1] ELSE [g EXCEPT !.sv[a].out = @ + 1]
  /\ act' = <<"S", d, a>>

DoDisc == \E a \in A, d \in {0, 1}, h \in {1, 2} :
  /\ (IF h = 1 THEN "Q" ELSE "N") \in Ops
  /\ IF d = 1 THEN g.cl[a].k \in {"pend", "act"} /\ g.cl[a].req = 0 ELSE g.sv[a].k = "act" /\ g.sv[a].req = 0
  /\ g' = IF d = 1
          THEN IF g.cl[a].k = "pend" THEN [g EXCEPT !.cl[a].k = "fin", !.cl[a].w = "e"]
               ELSE [g EXCEPT !.cl[a].req = h, !.cl[a].outd = g.cl[a].out]
          ELSE [g EXCEPT !.sv[a].req = h, !.sv[a].outd = g.sv[a].out]
  /\ act' = <<IF h = 1 THEN "Q" ELSE "N", d, a>>

DoDrop == \E a \in A, d \in {0, 1} :
  /\ "P" \in Ops
  /\ IF d = 1 THEN Live(g, a) ELSE g.sv[a].k # "none"
  /\ g' = IF d = 1 THEN [g EXCEPT !.cl[a].k = "gone", !.cl[a].req = 2] ELSE [SForget(g, a) EXCEPT !.ad[a].w = "e"]
  /\ act' = <<"P", d, a>>

Next == DoConnect \/ DoSrv \/ DoCl \/ DoTick \/ DoSubmit \/ DoDisc \/ DoDrop
Spec == Init /\ [][Next]_vars

(* C07: a handshake in progress is not replaced *)
NotReplaced == [][\A a \in A : g.sv[a].k = "pend" /\ g'.sv[a].k = "pend" => g'.sv[a].n = g.sv[a].n]_vars

(* Only differences of times matter: with this view the exploration is not bounded in time *)
Clip(n, m) == IF n > m THEN m ELSE n
View ==
  [ cl |-> [a \in A |-> LET c == g.cl[a] IN
              [c EXCEPT !.t0 = IF c.k \in {"pend", "closing"} THEN Clip(g.now - @, Budget + 1) ELSE 0,
                        !.due = IF c.k \in {"pend", "closing", "closed"} THEN @ - g.now ELSE 0,
                        !.th = IF c.k = "act" THEN Clip(g.now - @, TO + 1) ELSE 0]],
    sv |-> [a \in A |-> LET s == g.sv[a] IN
              [s EXCEPT !.t0 = IF s.k \in {"pend", "closing", "closed"} THEN Clip(g.now - @, Budget + ClosedT + 1) ELSE 0,
                        !.due = IF s.k \in {"pend", "closing", "closed"} THEN @ - g.now ELSE 0,
                        !.th = IF s.k = "act" THEN Clip(g.now - @, TO + 1) ELSE 0]],
    ad |-> g.ad, net |-> g.net, lag |-> g.lag, bad |-> g.bad ]

-----------------------------------------------------------------------------
(* What the properties demand *)
NoBad == g.bad = {}                                                 \* C07, C08, C09, C10 (not early), C18
Limits == Cardinality(Active(g)) <= MA /\ Cardinality(Tracked(g)) <= MT          \* C17
(* C07: both ends agree on the nonces, from which sequence numbers follow *)
Agreed == \A a \in A : g.sv[a].k = "act" => g.sv[a].rn = a /\ g.cl[a].sn = g.sv[a].n
(* C10, C17: nothing lasts longer than its budget *)
Bounded == /\ \A a \in A : /\ g.cl[a].k \in {"pend", "closing"} => g.now - g.cl[a].t0 <= Budget
                           /\ g.cl[a].k = "act" => g.now - g.cl[a].th <= TO
                           /\ g.sv[a].k \in {"pend", "closing"} => g.now - g.sv[a].t0 <= Budget
                           /\ g.sv[a].k = "act" => g.now - g.sv[a].th <= TO
                           /\ g.sv[a].k = "closed" => g.now - g.sv[a].t0 <= ClosedT
(* C09: an endpoint which has sent its request delivers nothing more and ends within the budget (Bounded) *)
Ended == \A a \in A : g.cl[a].k \in {"fin", "closed"} => g.cl[a].w = "e"
=============================================================================
