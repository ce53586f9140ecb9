------------------------------ MODULE Voxel ------------------------------
(* The voxel world and the octree it is exported as.                       *)
(* Points are <<x, y, z>>.  A world is a set of <<point, value>> pairs, one  *)
(* per occupied point.                                                      *)
EXTENDS Integers, Sequences, FiniteSets

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

EmptyWorld == {}
Points(w) == {r[1] : r \in w}
Has(w, p) == \E r \in w : r[1] = p
At(w, p) == (CHOOSE r \in w : r[1] = p)[2]
Del(w, p) == {r \in w : r[1] # p}
Put(w, p, v) == Del(w, p) \cup {<<p, v>>}
Get(w, p, none) == IF Has(w, p) THEN At(w, p) ELSE none

(* the recorded extent: starts inside out, only ever grows *)
NoExtent(size) == [max |-> <<0, 0, 0>>, min |-> <<size, size, size>>]
Grow(b, p) == [max |-> [k \in 1..3 |-> Max2(b.max[k], p[k])],
               min |-> [k \in 1..3 |-> Min2(b.min[k], p[k])]]

(***************************************************************************)
(* The octree.  A node is a sequence of octant numbers from the root, most  *)
(* significant first; octant bit 0 is x, bit 1 is y, bit 2 is z.            *)
(***************************************************************************)
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
Bit(n, b) == (n \div (2^b)) % 2
Inside(p, size) == \A k \in 1..3 : p[k] >= 0 /\ p[k] < size
Octant(p, b) == Bit(p[1], b) + 2 * Bit(p[2], b) + 4 * Bit(p[3], b)
Path(p, size) == LET n == Log2(size) IN [d \in 1..n |-> Octant(p, n - d)]
Prefix(q, d) == SubSeq(q, 1, d)

(* declarative: which nodes exist, and of which kind *)
InRange(w, size) == {r \in w : Inside(r[1], size)}
VoxelNodes(w, size) == {<<Path(r[1], size), r[2]>> : r \in InRange(w, size)}
Above(paths, size) == {Prefix(q, d) : q \in paths, d \in 1..(Log2(size) - 1)}
InnerNodes(w, size) == Above({n[1] : n \in VoxelNodes(w, size)}, size)
EmptyNodes(w, size) ==
    LET voxel == {n[1] : n \in VoxelNodes(w, size)}
        inner == Above(voxel, size)
    IN {Append(q, o) : q \in inner \cup {<<>>}, o \in 0..7} \ (inner \cup voxel)

(* algorithmic: bisect the world, as the exporter does.  A tree is           *)
(* <<"voxel", v>>, <<"none">> or <<"node", [0..7 -> tree]>>                  *)
RECURSIVE Build(_, _, _)
Build(w, lo, size) ==
    IF size = 1 THEN IF Has(w, lo) THEN <<"voxel", At(w, lo)>> ELSE <<"none">>
    ELSE LET h == size \div 2
             kid == [o \in 0..7 |-> Build(w, <<lo[1] + h * Bit(o, 0), lo[2] + h * Bit(o, 1),
                                               lo[3] + h * Bit(o, 2)>>, h)]
         IN IF \A o \in 0..7 : kid[o] = <<"none">> THEN <<"none">> ELSE <<"node", kid>>

RECURSIVE Lookup(_, _)
Lookup(tree, path) ==
    IF tree[1] = "node" /\ path # <<>> THEN Lookup(tree[2][path[1]], Tail(path)) ELSE tree
RECURSIVE CountVoxels(_)
CountVoxels(t) ==
    IF t[1] = "voxel" THEN 1 ELSE IF t[1] = "none" THEN 0
    ELSE LET c(o) == CountVoxels(t[2][o]) IN c(0)+c(1)+c(2)+c(3)+c(4)+c(5)+c(6)+c(7)
RECURSIVE Compact(_)
Compact(t) == IF t[1] # "node" THEN TRUE
              ELSE (\E o \in 0..7 : t[2][o] # <<"none">>) /\ \A o \in 0..7 : Compact(t[2][o])
=============================================================================
