------------------------------- MODULE RateMC -------------------------------
(* Checks that the TFRC sender of Tfrc.tla satisfies the bounds of property  *)
(* C14 (the observer), and exports its input histories for replay into the   *)
(* implementation's rate computation.                                        *)
EXTENDS Tfrc, Randomization

CONSTANTS Depth, Caps, Rtts, Recvs, Losses, Gaps

SmallLosses == { <<0, 1>>, <<1, 100>>, <<1, 2>> }
WideLosses == { <<0, 1>>, <<1, 1000000>>, <<1, 10000>>, <<1, 100>>, <<1, 30>>, <<1, 10>>, <<1, 2>>, <<9, 10>>, <<1, 1>> }

(* Receive rates: 2^31 - 1 stands for 2^32 - 1; loss rates are fractions <<n, m>> *)
Recv(v) == IF v < 2147483647 THEN RInt(v) ELSE RSub(RMul(RInt(1073741824), RInt(4)), One)
Loss(l) == RQ(l[1], l[2])

VARIABLES cap, s, o, t, hist
vars == <<cap, s, o, t, hist>>

Init == /\ cap \in Caps
        /\ t = 0
        /\ s = TSent(TInit(RInt(cap)), 0)
        /\ o = OSent(OInit(RInt(cap)), 0)
        /\ hist = <<<<"S">>>>

Sent == /\ s' = TSent(s, t)
        /\ o' = OSent(o, t)
        /\ hist' = Append(hist, <<"S">>)
        /\ UNCHANGED <<cap, t>>

Silent(dt) ==
  /\ t' = t + dt
  /\ s' = TSilent(s, t')
  /\ o' = OSilent(o, t', s'.x, s'.rtt, s'.rto)
  /\ hist' = Append(hist, <<"W", ToString(dt)>>)
  /\ UNCHANGED cap

Feedback(dt, r, v, l, lim) ==
  /\ t' = t + dt
  /\ s' = TFeedback(s, t', r, Recv(v), Loss(l), lim)
  /\ o' = OFeedback(o, t', r, Recv(v), Loss(l), lim, s'.x, s'.rtt, s'.rto, s'.ps, TRUE)
  /\ hist' = Append(hist, <<"F", ToString(dt), ToString(r), ToString(v), ToString(l[1]), ToString(l[2]), IF lim THEN "1" ELSE "0">>)
  /\ UNCHANGED cap

More == Len(hist) <= Depth

Next == More /\ \/ Sent
                \/ \E dt \in Gaps : Silent(dt)
                \/ \E dt \in Gaps, r \in Rtts, v \in Recvs, l \in Losses, lim \in BOOLEAN : Feedback(dt, r, v, l, lim)

SimNext == More /\ LET k == RandomElement(1..6) IN
                   CASE k = 1 -> Sent
                     [] k \in {2, 3} -> Silent(RandomElement(Gaps))
                     [] OTHER -> Feedback(RandomElement(Gaps), RandomElement(Rtts), RandomElement(Recvs), RandomElement(Losses), RandomElement(BOOLEAN))

Spec == Init /\ [][Next]_vars
SimSpec == Init /\ [][SimNext]_vars

(* C14, for the specification itself *)
BoundsHold == o.v = {}
(* The observer's RTT estimate is the sender's; its mode, too *)
Agree == o.rtt = s.rtt /\ o.mode = s.mode /\ o.x = s.x

Join(q, sep) == LET F[k \in 0..Len(q)] == IF k = 0 THEN "" ELSE F[k - 1] \o (IF k = 1 THEN "" ELSE sep) \o q[k] IN F[Len(q)]
Export == Len(hist) = Depth + 1 => PrintT("@@ " \o ToString(cap) \o " " \o Join([k \in 1..Len(hist) |-> Join(hist[k], ",")], " "))
=============================================================================
