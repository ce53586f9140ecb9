------------------------------- MODULE DistMC -----------------------------
(* All tables over few types, filled entry by entry.                        *)
EXTENDS Dist, TLC
CONSTANTS T, W
VARIABLES tab, mirror
Init == tab = {} /\ mirror \in BOOLEAN
Next == \E a \in T : \E b \in T : \E w \in W : ~Listed(tab, a, b) /\ tab' = tab \cup {[a |-> a, b |-> b, w |-> w]} /\ UNCHANGED mirror
Spec == Init /\ [][Next]_<<tab, mirror>>
(* the offer and the pairwise weight agree; what is not offered has no weight *)
Agree == \A a \in T : \A b \in T :
    Known(tab, mirror, a, b) = (\E r \in Offer(tab, mirror, a) : r.b = b /\ r.w = Weight(tab, mirror, a, b))
Once == \A a \in T : \A r, q \in Offer(tab, mirror, a) : r.b = q.b => r = q
OwnFirst == \A r \in tab : Weight(tab, mirror, r.a, r.b) = r.w /\ r.b \in {o.b : o \in Offer(tab, mirror, r.a)}
OnlyMirrored == mirror \/ \A a \in T : {[a |-> a, b |-> o.b, w |-> o.w] : o \in Offer(tab, mirror, a)} = {r \in tab : r.a = a}
BothWays == mirror => \A a \in T : \A b \in T : Known(tab, mirror, a, b) = Known(tab, mirror, b, a)
Symmetric == mirror => \A a \in T : \A b \in T : (Listed(tab, a, b) /\ ~Listed(tab, b, a)) => Weight(tab, mirror, b, a) = Weight(tab, mirror, a, b)
Followed == mirror => \A t \in Types(tab) : Offer(tab, mirror, t) # {}
=============================================================================
