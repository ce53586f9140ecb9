--------------------------------- MODULE Dist -----------------------------
(* Tables of weights for continuing from a room of one type with a room of  *)
(* another.  A table is a set of entries [a, b, w], one at most for a pair; *)
(* a mirrored one also holds for the pairs the other way round, unless the  *)
(* pair has an entry of its own.                                            *)
EXTENDS Integers, Sequences, FiniteSets
Listed(tab, a, b) == \E r \in tab : r.a = a /\ r.b = b
Entry(tab, a, b) == (CHOOSE r \in tab : r.a = a /\ r.b = b).w
Known(tab, mirror, a, b) == Listed(tab, a, b) \/ (mirror /\ Listed(tab, b, a))
Weight(tab, mirror, a, b) == IF Listed(tab, a, b) THEN Entry(tab, a, b) ELSE Entry(tab, b, a)
Types(tab) == {r.a : r \in tab} \cup {r.b : r \in tab}
(* everything which may follow a, with its weight *)
Offer(tab, mirror, a) == {[b |-> b, w |-> Weight(tab, mirror, a, b)] : b \in {t \in Types(tab) : Known(tab, mirror, a, t)}}
=============================================================================
