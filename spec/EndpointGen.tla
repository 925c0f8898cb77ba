---------------------------- MODULE EndpointGen ----------------------------
(* Random behaviours of connection management, exported as schedules for the real Server and    *)
(* Clients: API calls, which datagram reaches whom before which step, how time passes.          *)
EXTENDS Endpoint

CONSTANT Depth

VARIABLES hist, old
gvars == <<vars, hist, old>>

GenInit == Init /\ hist = <<>> /\ old = {}

(* Mostly datagrams which have not arrived yet; sometimes old or forged ones *)
Pool(d) == { x \in g.net : x[1] = d } 
Fresh(d, S) == LET n == { x \in S : x \notin old }  k == RandomElement(1..24) IN
               IF k = 1 THEN { x \in Forged : x[1] = d } ELSE IF n # {} /\ k < 20 THEN n ELSE S
Pick(d, S) ==
  LET n == <<0, 1, 1, 1, 1, 2, 2, 3>>[RandomElement(1..8)]
      F[k \in 0..n] == IF k = 0 THEN <<>> ELSE LET P == Fresh(d, S) IN IF P = {} THEN F[k - 1] ELSE Append(F[k - 1], RandomElement(P))
  IN F[n]

GSrv == \E q \in { Pick(1, Pool(1)) } :
  /\ g' = SrvStep(g, [k \in 1..Len(q) |-> <<q[k][2], q[k][3]>>])
  /\ old' = old \cup { q[k] : k \in 1..Len(q) }
  /\ act' = <<"s">> \o Name([k \in 1..Len(q) |-> <<q[k][2]>> \o q[k][3]])

GCl == \E a \in A : \E q \in { Pick(0, { x \in Pool(0) : x[2] = a }) } :
  /\ Live(g, a)
  /\ g' = ClStep(g, a, [k \in 1..Len(q) |-> q[k][3]])
  /\ old' = old \cup { q[k] : k \in 1..Len(q) }
  /\ act' = <<"c", a>> \o Name([k \in 1..Len(q) |-> q[k][3]])

AllStep(x) == LET y == SrvStep(x, <<>>) IN FoldLeft(LAMBDA z, a : IF Live(z, a) THEN ClStep(z, a, <<>>) ELSE z, y, Order(A))
RECURSIVE Wait(_, _)
Wait(x, n) == IF n = 0 THEN x ELSE Wait([AllStep(x) EXCEPT !.now = @ + 1, !.lag = {}], n - 1)
GWait == \E n \in { <<1, 1, 1, 1, 1, 1, 1, 2, 2, 3, 4, 6, 11, 12>>[RandomElement(1..14)] } :
  /\ g' = Wait(g, n) /\ act' = <<"W", n>> /\ old' = old

GDisc == DoDisc /\ LET a == act'[3] IN act'[2] = 0 \/ g.cl[a].k # "pend" \/ RandomElement(1..8) = 1

GConnect == DoConnect /\ (act'[3] = 0 \/ RandomElement(1..3) = 1)
Rec(X) == X /\ hist' = Append(hist, act')
Same(X) == X /\ old' = old
One(X) == RandomElement(1..3) = 1 /\ X
Over == \A a \in A : g.cl[a].k \in {"fin", "gone"} /\ g.sv[a].k = "none"
GenNext ==
  IF Len(hist) < Depth /\ ~(Len(hist) > 20 /\ Over)
  THEN IF (\A a \in A : g.cl[a].k = "idle") /\ RandomElement(1..6) > 1 THEN Rec(Same(GConnect)) ELSE
       \/ Rec(Same(GConnect)) \/ Rec(GSrv) \/ Rec(GSrv) \/ Rec(GCl) \/ Rec(GCl) \/ Rec(GWait) \/ Rec(Same(DoSubmit))
       \/ Rec(Same(One(GDisc))) \/ Rec(Same(One(One(DoDrop))))
  ELSE act # <<"end">> /\ act' = <<"end">> /\ hist' = Append(hist, act') /\ UNCHANGED <<g, old>>
GenSpec == GenInit /\ [][GenNext]_gvars

Join(q) == LET F[k \in 0..Len(q)] == IF k = 0 THEN "" ELSE F[k - 1] \o "," \o ToString(q[k]) IN F[Len(q)]
Acts(q) == LET F[k \in 0..Len(q)] == IF k = 0 THEN "" ELSE F[k - 1] \o " " \o q[k][1] \o Join(Tail(q[k])) IN F[Len(q)]
Export == act = <<"end">> => PrintT("@@ E" \o Join(<<Cardinality(A), MT, MA, TO, PkMax>>) \o Acts(SubSeq(hist, 1, Len(hist) - 1)))
=============================================================================
