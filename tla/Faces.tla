-------------------------------- MODULE Faces -----------------------------
(* A cube of the octree has 12 edges, each a byte: the low nibble tells     *)
(* where the edge begins, the high nibble where it ends.  A corner is a     *)
(* triple of bits; its coordinates are the ends of the three edges which    *)
(* meet there.  A face is numbered 2 * dimension + side.                    *)
EXTENDS Integers, Sequences, FiniteSets
Corners == {<<x, y, z>> : x \in 0..1, y \in 0..1, z \in 0..1}
Faces == 0..5
Dimension(o) == o \div 2
Side(o) == o % 2
Opposite(o) == IF Side(o) = 0 THEN o + 1 ELSE o - 1
(* the edge (1..12) along dimension d at the corner *)
Edge(c, d) == 1 + CASE d = 0 -> c[2] + 2 * c[3]
                    [] d = 1 -> 4 + c[3] + 2 * c[1]
                    [] d = 2 -> 8 + c[1] + 2 * c[2]
End(e, b) == IF b = 0 THEN e % 16 ELSE e \div 16
Point(edges, c) == [d \in 1..3 |-> End(edges[Edge(c, d - 1)], c[d])]
OfFace(o) == {c \in Corners : c[Dimension(o) + 1] = Side(o)}
(* the corners of a face in cyclic order, counter-clockwise as seen from outside *)
Walk(o) == LET d == Dimension(o)  v == (d + 1) % 3  w == (d + 2) % 3
               At(a, b) == [k \in 1..3 |-> IF k = d + 1 THEN Side(o) ELSE IF k = v + 1 THEN a ELSE b]
           IN IF Side(o) = 1 THEN <<At(0, 0), At(1, 0), At(1, 1), At(0, 1)>> ELSE <<At(0, 0), At(0, 1), At(1, 1), At(1, 0)>>
Turned(q, r) == [j \in 1..4 |-> q[((j - 1 + r) % 4) + 1]]
(* what a face may be given as: its walk from any start *)
FaceOf(edges, o) == {[j \in 1..4 |-> Point(edges, Turned(Walk(o), r)[j])] : r \in 0..3}
=============================================================================
