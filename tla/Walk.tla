-------------------------------- MODULE Walk -------------------------------
(* Walking through rooms.  A room is a set of cells and columns of solid     *)
(* voxels <<x, y>> -> runs <<from z, to z, ...>>.  g says how wide a cell is *)
(* (s), how wide (w) and how high (h) the body is that walks, in voxels.     *)
(* A body is at p when it fills the w x w x h voxels from p on.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
East == <<1, 0, 0>>   North == <<0, 1, 0>>   West == <<-1, 0, 0>>   South == <<0, -1, 0>>

Cell(g, p) == <<p[1] \div g.s, p[2] \div g.s, p[3] \div g.s>>
Runs(r, x, y) == IF <<x, y>> \in DOMAIN r.cols THEN r.cols[<<x, y>>] ELSE <<>>
Fits(g, r, p) ==
    \A i, j \in 0..(g.w - 1) : LET x == p[1] + i y == p[2] + j rs == Runs(r, x, y) IN
        /\ \A z \in p[3]..(p[3] + g.h - 1) : Cell(g, <<x, y, z>>) \in r.cells
        /\ \A n \in 1..Len(rs) : rs[n][2] < p[3] \/ rs[n][1] > p[3] + g.h - 1
Abs(n) == IF n < 0 THEN -n ELSE n
Step(p, q) == Abs(p[1] - q[1]) + Abs(p[2] - q[2]) + Abs(p[3] - q[3]) = 1

(* a door is <<cell inside, direction out>>; a body in it stands against the *)
(* outer face; where it stands there, seen by somebody who goes out          *)
AtDoor(g, d, p) ==
    LET x == p[1] - (g.s * d[1][1]) y == p[2] - (g.s * d[1][2]) z == p[3] - (g.s * d[1][3]) far == g.s - g.w IN
    /\ x \in 0..far /\ y \in 0..far /\ z \in 0..(g.s - g.h)
    /\ CASE d[2] = East -> x = far [] d[2] = West -> x = 0 [] d[2] = North -> y = far [] OTHER -> y = 0
Place(g, d, p) ==
    LET x == p[1] - (g.s * d[1][1]) y == p[2] - (g.s * d[1][2]) z == p[3] - (g.s * d[1][3]) far == g.s - g.w IN
    CASE d[2] = East -> <<y, z>> [] d[2] = West -> <<far - y, z>> [] d[2] = North -> <<far - x, z>> [] OTHER -> <<x, z>>
Opening(g, d, P) == {Place(g, d, p) : p \in {q \in P : AtDoor(g, d, q)}}
(* where the outermost layer of voxels at the door leaves room for a slice   *)
(* of the body                                                               *)
Layer(g, r, d) ==
    LET c == <<g.s * d[1][1], g.s * d[1][2], g.s * d[1][3]>> far == g.s - g.w last == g.s - 1
        At(t) == CASE d[2] = East -> <<c[1] + last, c[2] + t>> [] d[2] = West -> <<c[1], c[2] + last - t>>
                   [] d[2] = North -> <<c[1] + last - t, c[2] + last>> [] OTHER -> <<c[1] + t, c[2]>>
        Clear(x, y, z) == \A n \in 1..Len(Runs(r, x, y)) : Runs(r, x, y)[n][2] < z \/ Runs(r, x, y)[n][1] > z + g.h - 1
    IN {o \in (0..far) \X (0..(g.s - g.h)) : \A k \in 0..(g.w - 1) : LET q == At(o[1] + k) IN Clear(q[1], q[2], c[3] + o[2])}
(* two doors face to face, a and b: <<opening, layer>>.  A body of at most   *)
(* two voxels comes from the opening of one, may move sideways between the   *)
(* layers, and goes on into the opening of the other.                        *)
Other(g, o) == <<g.s - g.w - o[1], o[2]>>
RECURSIVE Along(_, _)
Along(F, P) == LET N == {q \in F \ P : \E p \in P : Abs(p[1] - q[1]) + Abs(p[2] - q[2]) = 1} IN IF N = {} THEN P ELSE Along(F, P \cup N)
Meet(g, a, b) ==
    LET F == {o \in a[2] : Other(g, o) \in b[2]}
        B == {Other(g, o) : o \in b[1]}
    IN (a[1] \cap F \cap B # {}) \/ (Along(F, a[1] \cap F) \cap B # {})

(* a tree of positions <<x, y, z, number of the one before>> shows that all  *)
(* of them can be walked to from the first                                   *)
Pos(n) == <<n[1], n[2], n[3]>>
Tree(g, r, t) == \A n \in 1..Len(t) :
    /\ Fits(g, r, Pos(t[n]))
    /\ IF n = 1 THEN t[n][4] = 0 ELSE t[n][4] \in 1..(n - 1) /\ Step(Pos(t[n]), Pos(t[t[n][4]]))
Nodes(t) == {Pos(t[n]) : n \in 1..Len(t)}
=============================================================================
