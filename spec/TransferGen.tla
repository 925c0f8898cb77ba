---------------------------- MODULE TransferGen ----------------------------
(* Random behaviours of the transfer protocol, exported as schedules for the real code: what the *)
(* application submits, which frames arrive, in which order, how time passes.                    *)
EXTENDS Transfer

CONSTANT Depth

VARIABLE hist

GenInit == Init /\ hist = <<>>
(* An old frame arrives once more (it is behind the frame window) *)
Old == /\ RandomElement(1..4) = 1
       /\ \E f \in 0..r.fb - 1 : f < Len(s.log) /\ act' = <<"d", s.log[f + 1][1], s.log[f + 1][2]>>
       /\ UNCHANGED <<s, r, an, yn>>
Pass == Len(s.pk) = PkMax /\ act' = <<"X">> /\ UNCHANGED <<s, r, an, yn>>

Rec(A) == A /\ hist' = Append(hist, act')
GenNext ==
  IF Len(hist) < Depth
  THEN \/ Rec(DoSubmit) \/ Rec(DoSend) \/ Rec(DoResend) \/ Rec(DoStep) \/ Rec(DoForget) \/ Rec(DoSync)
       \/ Rec(DoData) \/ Rec(DoTakeSync) \/ Rec(DoReceive) \/ Rec(DoAck) \/ Rec(DoTakeAck) \/ Rec(Old) \/ Rec(Pass)
  ELSE Len(hist) = Depth /\ act' = <<"end">> /\ hist' = Append(hist, act') /\ UNCHANGED <<s, r, an, yn>>
GenSpec == GenInit /\ [][GenNext]_<<vars, hist>>

Join(q) == LET F[k \in 0..Len(q)] == IF k = 0 THEN "" ELSE F[k - 1] \o "," \o ToString(q[k]) IN F[Len(q)]
Acts(q) == LET F[k \in 0..Len(q)] == IF k = 0 THEN "" ELSE F[k - 1] \o " " \o q[k][1] \o Join(Tail(q[k])) IN F[Len(q)]
Export == Len(hist) > Depth => PrintT("@@ W" \o Join(<<W, FW, Alloc, Base>>) \o Acts(SubSeq(hist, 1, Depth)))
=============================================================================
