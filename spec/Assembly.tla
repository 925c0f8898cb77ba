----------------------------- MODULE Assembly -----------------------------
(***************************************************************************)
(* Design of the packet receiver: the receive window, its assembly slots,  *)
(* the channel bases, delivery, window advancement, resynchronisation and  *)
(* the receive allocation, under every order in which fragments, copies,   *)
(* contradictions and sync frames may arrive.                              *)
(*                                                                         *)
(* The network holds every fragment of N packets from the beginning; a     *)
(* polite sender releases them as the window base it has been told (kb)    *)
(* allows, the others whenever they please.                                *)
(* Gen: "no"  - states only                                                *)
(*      "all" - every transition of the state graph is printed, with one   *)
(*              history which leads to it                                  *)
(*      "sim" - histories of random walks are printed                      *)
(* The histories are replayed into the real receiver; AsmTrace judges what *)
(* it does with them.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Randomization

CONSTANTS N, Few, Gen, Noise

VARIABLES cfg, st, hist, act
vars == <<cfg, st, hist, act>>
View == <<cfg, st>>

P == 1..N
Channels == {0, 1}
(* A packet: channel, reliable?, number of fragments *)
Kinds(nfs) == Channels \X BOOLEAN \X nfs
Configs ==
  IF Few
  THEN { [pk |-> [p \in P |-> k[p]], win |-> w, lim |-> l, polite |-> g] :
           k \in { << <<0, TRUE, 2>>, <<0, TRUE, 1>>, <<1, FALSE, 2>> >>,
                   << <<0, FALSE, 1>>, <<1, TRUE, 2>>, <<0, TRUE, 1>> >>,
                   << <<0, TRUE, 2>>, <<0, FALSE, 1>>, <<1, TRUE, 1>> >>,
                   << <<0, TRUE, 3>>, <<1, TRUE, 1>>, <<0, FALSE, 2>> >>,
                   << <<0, FALSE, 2>>, <<0, FALSE, 1>>, <<0, TRUE, 2>> >> },
           w \in {2, 4}, l \in {3, 6}, g \in BOOLEAN }
  ELSE { [pk |-> k, win |-> w, lim |-> l, polite |-> g] :
           k \in { x \in [P -> Kinds({1, 2})] : x[1][1] = 0 }, w \in {2, 4}, l \in {2, 3, 6}, g \in BOOLEAN }

Ch(p) == cfg.pk[p][1]
Rel(p) == cfg.pk[p][2]
NF(p) == cfg.pk[p][3]
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(a, b) == IF a < b THEN a ELSE b
Latest(S) == IF S = {} THEN 0 ELSE Max(S)
(* The Reliable packets which must not be skipped: of the channel, and of all *)
Parent(p) == Latest({ q \in 1..p - 1 : Rel(q) /\ Ch(q) = Ch(p) })
WParent(p) == Latest({ q \in 1..p - 1 : Rel(q) })
Frags(p) == 0..NF(p) - 1
Sum(S) == LET F[k \in 0..N] == IF k = 0 THEN 0 ELSE F[k - 1] + (IF k \in S THEN NF(k) ELSE 0) IN F[N]

Present == { "full", "out", "dud", "void" }               \* an entry in the receive window
Used(t) == Sum({ p \in P : t.s[p] \in { "part", "full", "out" } })
CB(t, c) == IF t.cb[c] > t.base THEN t.cb[c] ELSE t.base
Complete(t, p) == t.fr[p] = Frags(p)
Outs(t) == { t.out[k] : k \in 1..Len(t.out) }

Init == /\ cfg \in Configs
        /\ st = [ base |-> 1, kb |-> 1, cb |-> [c \in Channels |-> 0], s |-> [p \in P |-> "open"], fr |-> [p \in P |-> {}],
                  out |-> <<>>, ab |-> {}, noise |-> 0, dirty |-> FALSE ]
        /\ hist = <<>>
        /\ act = <<>>

-----------------------------------------------------------------------------
(* The sender *)
Released(p) == ~cfg.polite \/ (p < st.kb + cfg.win /\ Sum(st.kb..p) <= cfg.lim)

(* The receiver: a genuine fragment *)
Accepts(p) == p >= st.base /\ p < st.base + cfg.win /\ p >= CB(st, Ch(p))
Take(p, f) ==
  IF ~Accepts(p) THEN [st EXCEPT !.fr[p] = @ \cup {f}, !.dirty = TRUE]
  ELSE LET t == [st EXCEPT !.fr[p] = @ \cup {f}, !.dirty = TRUE] IN
       CASE st.s[p] = "open" /\ Used(st) + NF(p) > cfg.lim -> [t EXCEPT !.s[p] = "dud"]
         [] st.s[p] = "open" /\ NF(p) = 1 -> [t EXCEPT !.s[p] = "full"]
         [] st.s[p] = "open" -> [t EXCEPT !.s[p] = "part"]
         [] st.s[p] = "part" /\ Complete(t, p) -> [t EXCEPT !.s[p] = "full"]
         [] OTHER -> t

Do(t, a) == /\ st' = t
            /\ act' = a
            /\ hist' = IF Gen = "no" THEN hist ELSE Append(hist, a)
            /\ UNCHANGED cfg

Frag == \E p \in P : \E f \in Frags(p) \ st.fr[p] :
          /\ Released(p)
          /\ p < st.base + cfg.win
          /\ Do(Take(p, f), <<"f", p, f>>)

(* What must not matter: copies, fragments which contradict those accepted, ids outside of the window, *)
(* a fragment too early for the window                                                                 *)
Noisy(a) == st.noise < Noise /\ Do([st EXCEPT !.noise = @ + 1, !.dirty = TRUE], a)
Dup == \E p \in P : \E f \in st.fr[p] : Noisy(<<"d", p, f>>)
Contra == \E p \in P : /\ st.fr[p] # {} /\ st.s[p] \in { "part", "full", "out" }
                       /\ \E k \in 0..5 : Noisy(<<"c", p, k>>)
Outside == \E k \in 0..3 : Noisy(<<"o", k, 0>>)
Early == \E p \in P : p >= st.base + cfg.win /\ ~cfg.polite /\ Noisy(<<"e", p, 0>>)

(* All Reliable packets before `nx` have arrived; the others are given up *)
Sync == \E nx \in st.base + 1..Min(N + 1, st.base + cfg.win) :
          /\ \A p \in 1..nx - 1 : Rel(p) => (st.s[p] \in Present \/ p < st.base)
          /\ LET e == { p \in st.base..nx - 1 : st.s[p] \in Present }
                 b == IF e = {} THEN nx ELSE CHOOSE p \in e : \A q \in e : p <= q
                 gone == { p \in P : p < b }
             IN /\ b > st.base \/ (\E p \in st.base..nx - 1 : ~Complete(st, p) /\ p \notin st.ab)
                /\ Do([st EXCEPT !.base = b, !.ab = @ \cup { p \in 1..nx - 1 : p \notin Outs(st) /\ st.s[p] \notin Present },
                                 !.s = [p \in P |-> IF p \in gone THEN "gone" ELSE @[p]], !.dirty = TRUE], <<"s", nx, 0>>)

(* receive(): deliver what may be delivered, in the order of the ids; then advance the window *)
RECURSIVE Deliver(_, _, _)
Deliver(t, p, blocked) ==
  IF p > N THEN t
  ELSE IF t.s[p] \notin { "full", "dud" } \/ Ch(p) \in blocked \/ p < t.base THEN Deliver(t, p + 1, blocked)
  ELSE IF Parent(p) # 0 /\ Parent(p) >= CB(t, Ch(p)) THEN Deliver(t, p + 1, blocked \cup {Ch(p)})
  ELSE Deliver([t EXCEPT !.out = IF t.s[p] = "full" THEN Append(@, p) ELSE @,
                         !.s[p] = IF @ = "full" THEN "out" ELSE "void", !.cb[Ch(p)] = p + 1], p + 1, blocked)

RECURSIVE NewBase(_, _, _)
NewBase(t, p, nb) ==
  IF p > N \/ t.s[p] \in { "full", "dud" } THEN nb
  ELSE IF t.s[p] \notin { "out", "void" } THEN NewBase(t, p + 1, nb)
  ELSE IF WParent(p) = 0 \/ WParent(p) < nb THEN NewBase(t, p + 1, p + 1)
  ELSE nb

Receive == /\ st.dirty
           /\ LET t == Deliver(st, st.base, {})
                  b == NewBase(t, t.base, t.base)
              IN Do([t EXCEPT !.base = b, !.kb = b, !.dirty = FALSE,
                              !.s = [p \in P |-> IF p < b THEN "gone" ELSE @[p]]], <<"r", 0, 0>>)

-----------------------------------------------------------------------------
Join(q) == LET F[k \in 0..Len(q)] == IF k = 0 THEN "" ELSE F[k - 1] \o "," \o ToString(q[k]) IN F[Len(q)]
Acts(q) == LET F[k \in 0..Len(q)] == IF k = 0 THEN "" ELSE F[k - 1] \o " " \o q[k][1] \o Join(Tail(q[k])) IN F[Len(q)]
B(x) == IF x THEN 1 ELSE 0
Header == "W," \o ToString(cfg.win) \o "," \o ToString(cfg.lim) \o "," \o ToString(B(cfg.polite)) \o
        LET F[k \in 0..N] == IF k = 0 THEN "" ELSE F[k - 1] \o " k," \o ToString(Ch(k)) \o "," \o ToString(B(Rel(k))) \o "," \o ToString(NF(k)) IN F[N]
Show == PrintT("@@ " \o Header \o Acts(hist'))

Step == Frag \/ Dup \/ Contra \/ Outside \/ Early \/ Sync \/ Receive
Next == Step /\ (Gen = "all" => Show)
Spec == Init /\ [][Next]_vars

(* Random walks: fewer receive() calls between fragments, noise now and then *)
SimInit == Init
SimNext == \/ Frag
           \/ (RandomElement(1..2) = 1 /\ Receive)
           \/ (RandomElement(1..12) = 1 /\ (Dup \/ Contra \/ Outside \/ Early))
           \/ (RandomElement(1..4) = 1 /\ Sync)
           \/ (act # <<"end">> /\ (\A p \in P : Complete(st, p)) /\ act' = <<"end">> /\ UNCHANGED <<cfg, st, hist>>)
SimSpec == SimInit /\ [][SimNext]_vars
Export == act = <<"end">> => PrintT("@@ " \o Header \o Acts(hist))

-----------------------------------------------------------------------------
Index(p) == CHOOSE k \in 1..Len(st.out) : st.out[k] = p

TypeOK == st.base \in 1..N + 1 /\ st.kb <= st.base
(* C01 *)
Once == \A j, k \in 1..Len(st.out) : j < k => st.out[j] # st.out[k] /\ (Ch(st.out[j]) = Ch(st.out[k]) => st.out[j] < st.out[k])
(* C02 *)
Order == cfg.polite => \A p \in Outs(st) : Parent(p) # 0 => Parent(p) \in Outs(st) /\ Index(Parent(p)) < Index(p)
NoSkip == cfg.polite => \A p \in P : Rel(p) /\ p < st.base => p \in Outs(st)
(* C04 *)
Whole == \A p \in Outs(st) : Complete(st, p)
Due == \A p \in P : ~st.dirty /\ cfg.polite /\ Rel(p) /\ Complete(st, p) /\ (Parent(p) # 0 => Parent(p) \in Outs(st)) => p \in Outs(st)
(* C06 *)
Bounded == Used(st) <= cfg.lim
NoDud == cfg.polite => \A p \in P : st.s[p] \notin { "dud", "void" }
(* Nothing is left once everything has arrived *)
Done == cfg.polite /\ ~st.dirty /\ (\A p \in P : Complete(st, p)) => st.base = N + 1 \/ st.ab # {}
=============================================================================
