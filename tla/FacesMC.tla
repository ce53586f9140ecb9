------------------------------- MODULE FacesMC ----------------------------
(* Every cube whose edges have one of two values each: the corners and      *)
(* faces fit together.                                                      *)
EXTENDS Faces, TLC
CONSTANTS Grid
VARIABLES edges
Values(k) == IF k % 2 = 0 THEN {16 * 8, 16 * (k % 9) + (k \div 3)} ELSE {16 * 8, 16 * 3 + 7}
Init == edges \in
{[k \in 1..12 |-> IF (m \div (2 ^ (k - 1))) % 2 = 0 THEN 128 ELSE CHOOSE v \in Values(k) : v # 128] : m \in {n \in 0..4095 : n % Grid = 0}}
(* cubes with an end moved *)
Moved(e) == {k \in 1..12 : e[k] \notin Values(k)}
Small == Moved(edges) = {}
Next == \E k \in 1..12 : \E n \in {1, 16} : /\ Small /\ edges[k] = 128 /\ edges' = [edges EXCEPT ![k] = @ + n]
(* every edge ends in two corners, which differ in its dimension only *)
EdgeEnds == \A k \in 1..12 : \E d \in 0..2 : LET cs == {c \in Corners : Edge(c, d) = k} IN
              Cardinality(cs) = 2 /\ \A c, b \in cs : \A j \in 1..3 : j # d + 1 => c[j] = b[j]
(* four distinct corners of the face, neighbours along an edge *)
Walks == \A o \in Faces : LET w == Walk(o) IN
    {w[j] : j \in 1..4} = OfFace(o) /\ \A j \in 1..4 : Cardinality({k \in 1..3 : w[j][k] # w[(j % 4) + 1][k]}) = 1
(* two faces with a common edge run along it in opposite directions *)
Directed(o) == {<<Walk(o)[j], Walk(o)[(j % 4) + 1]>> : j \in 1..4}
Closed == \A o \in Faces : \A p \in Directed(o) : Cardinality({q \in Faces : <<p[2], p[1]>> \in Directed(q)}) = 1
                                                   /\ \A q \in Faces \ {o} : p \notin Directed(q)
Opposites == \A o \in Faces : Opposite(Opposite(o)) = o /\ Dimension(Opposite(o)) = Dimension(o) /\ OfFace(o) \cap OfFace(Opposite(o)) = {}
(* every corner is on three faces, and the same point on each *)
Shared == \A c \in Corners : Cardinality({o \in Faces : c \in OfFace(o)}) = 3
(* a full cube *)
Full == (\A k \in 1..12 : edges[k] = 128) => \A c \in Corners : Point(edges, c) = [d \in 1..3 |-> 8 * c[d]]
InRange == \A c \in Corners : \A d \in 1..3 : Point(edges, c)[d] \in 0..15
(* moving one end of one edge moves one corner only, in one coordinate *)
Local == \A k \in 1..12 : edges[k] = 129 =>
    Cardinality({c \in Corners : Point(edges, c) # Point([edges EXCEPT ![k] = 128], c)}) = 1
=============================================================================
