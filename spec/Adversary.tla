----------------------------- MODULE Adversary -----------------------------
(***************************************************************************)
(* The environment of one endpoint (property C03): everything a hostile    *)
(* peer may put on the wire, every valid API call and every passage of     *)
(* time, as a state machine.  Field values are classes relative to the     *)
(* state of the connection under attack ("next", "edge" of the window,     *)
(* just "out"side of it, "old", "far"); the harness picks the values.      *)
(*                                                                         *)
(* TLC enumerates the behaviours of length Depth (or simulates longer      *)
(* ones) and exports each; the harness replays them against a real server  *)
(* or client, and AdvTrace judges what happened.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Randomization

CONSTANTS Depth, Wide

(* Phase of the connection between the endpoint and its hostile peer *)
Phases == { "fresh", "pending", "active", "closing", "closed" }
Targets == { "S", "C" }

VARIABLES tgt, phase, start, hist
vars == <<tgt, phase, start, hist>>

-----------------------------------------------------------------------------
(* The alphabet.  An action is a sequence of strings. *)

Bytes == { <<"raw", x>> : x \in { "empty", "one", "rand", "type", "trunc", "extend", "flip", "big", "max", "badcrc" } }

Shakes ==
  { <<"syn", x>> : x \in { "good", "other", "version", "zero", "max", "tiny" } } \cup
  { <<"synack", x>> : x \in { "good", "bad", "zero", "max", "tiny" } } \cup
  { <<"ack", x>> : x \in { "good", "bad" } } \cup
  { <<"err", x>> : x \in { "good", "bad" } } \cup
  { <<"disc">>, <<"discack">> }

SeqC == { "next", "edge", "out", "old", "far" }
PidC == { "base", "next", "edge", "out", "old", "far" }
Shape == { "one", "empty", "first", "last", "over", "huge", "hugelast", "long" }
Lead == { "zero", "one", "wild", "max" }

Datas ==
  { <<"data", "next", p, s, l>> : p \in PidC, s \in Shape, l \in IF Wide THEN Lead ELSE { "any" } } \cup
  { <<"data", q, "next", s, "any">> : q \in SeqC, s \in { "one", "first" } } \cup
  { <<"data", "next", "none", "one", "zero">>, <<"data", "next", "many", "one", "any">>, <<"data", "next", "clash", "one", "any">>, <<"data", "next", "clash", "first", "any">> }

IdC == { "none", "next", "edge", "out", "old", "far", "high" }
Syncs == IF Wide THEN { <<"sync", f, p>> : f \in IdC, p \in IdC }
         ELSE { <<"sync", f, "none">> : f \in IdC } \cup { <<"sync", "none", p>> : p \in IdC } \cup { <<"sync", "edge", "edge">>, <<"sync", "far", "out">> }

AckBase == { "same", "next", "end", "out", "old", "far", "high" }
Group == { "none", "good", "wrong", "unknown", "full", "gap", "many", "repeat" }
Acks == IF Wide THEN { <<"acks", f, p, g>> : f \in AckBase, p \in AckBase, g \in Group }
        ELSE { <<"acks", f, "same", "none">> : f \in AckBase } \cup { <<"acks", "same", p, "none">> : p \in AckBase } \cup
             { <<"acks", "same", "same", g>> : g \in Group } \cup { <<"acks", "end", "end", g>> : g \in Group }

Sends == { <<"send", m, s>> : m \in { "T", "U", "P", "R" }, s \in { "0", "1", "frag", "large" } } \cup { <<"burst">> }
Calls == { <<"flush">>, <<"step">>, <<"disconnect">>, <<"disconnect_now">> }
Times == { <<"time", x>> : x \in { "0", "1", "100", "3000", "30000", "3600000", "5000000000" } }
(* The peer behaves for a while; frames seen earlier return; frames of the endpoint return to it *)
Others == { <<"honest">>, <<"replay">>, <<"reflect">> }

Local == Sends \cup Calls \cup Times \cup Others
Basic == Local \cup Bytes \cup Shakes
Full == Basic \cup Datas \cup Syncs \cup Acks
Few == Basic \cup { <<"data", "next", "next", "one", "any">>, <<"sync", "next", "next">>, <<"acks", "same", "same", "none">> }
Alphabet(ph) == IF ph = "active" \/ (Wide /\ ph = "closing") THEN Full ELSE Few

-----------------------------------------------------------------------------
(* What the actions do to the phase, as far as the environment knows *)
Effect(ph, a) ==
  CASE tgt = "S" /\ ph = "fresh" /\ a \in { <<"syn", "good">>, <<"syn", "max">> } -> "pending"
    [] tgt = "S" /\ ph = "pending" /\ a = <<"ack", "good">> -> "active"
    [] tgt = "C" /\ ph = "pending" /\ a \in { <<"synack", "good">>, <<"synack", "max">>, <<"synack", "zero">>, <<"synack", "tiny">> } -> "active"
    [] tgt = "C" /\ ph = "pending" /\ a = <<"err", "good">> -> "closed"
    [] ph = "active" /\ a[1] \in { "disconnect", "disconnect_now" } -> "closing"
    [] ph = "active" /\ a = <<"disc">> -> "closed"
    [] ph = "closing" /\ a \in { <<"disc">>, <<"discack">> } -> "closed"
    [] tgt = "S" /\ ph = "closed" /\ a[1] = "time" /\ a[2] \in { "30000", "3600000", "5000000000" } -> "fresh"
    [] ph # "fresh" /\ a[1] = "time" /\ a[2] \in { "3600000", "5000000000" } -> IF tgt = "S" THEN "fresh" ELSE "closed"
    [] OTHER -> ph

Init == /\ tgt \in Targets
        /\ start \in IF tgt = "S" THEN Phases ELSE Phases \ { "fresh" }
        /\ phase = start
        /\ hist = <<>>

Next == /\ Len(hist) < Depth
        /\ \E a \in Alphabet(phase) :
             /\ hist' = Append(hist, a)
             /\ phase' = Effect(phase, a)
        /\ UNCHANGED <<tgt, start>>

Spec == Init /\ [][Next]_vars

(* Long behaviours: one random action per step; mostly about established connections *)
SimInit == Init /\ (start = "active" \/ RandomElement(1..4) = 1)
SimNext == /\ Len(hist) < Depth
           /\ LET a == RandomElement(IF RandomElement(1..3) = 1 THEN Local ELSE Alphabet(phase)) IN
                /\ hist' = Append(hist, a)
                /\ phase' = Effect(phase, a)
           /\ UNCHANGED <<tgt, start>>
SimSpec == SimInit /\ [][SimNext]_vars

TypeOK == phase \in Phases /\ tgt \in Targets /\ (tgt = "C" => phase # "fresh")

Join(s, sep) == LET F[k \in 0..Len(s)] == IF k = 0 THEN "" ELSE F[k - 1] \o (IF k = 1 THEN "" ELSE sep) \o s[k] IN F[Len(s)]
Export == Len(hist) = Depth => PrintT("@@ " \o tgt \o " " \o start \o " " \o Join([k \in 1..Len(hist) |-> Join(hist[k], ",")], " "))
=============================================================================
