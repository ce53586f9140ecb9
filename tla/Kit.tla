-------------------------------- MODULE Kit -------------------------------
(* The drawing primitives: sets of voxels in the frame of a room that faces *)
(* east with its cell at the origin, and their placement in the world.      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Cell                      \* edge length of a cell, in voxels (8)

Span(n) == IF n > 0 THEN 0..(n - 1) ELSE (n + 1)..0
Box(o, a) == {<<o[1] + x, o[2] + y, o[3] + z>> : x \in Span(a[1]), y \in Span(a[2]), z \in Span(a[3])}
Step(o, d, i) == <<o[1] + d[1] * i, o[2] + d[2] * i, o[3] + d[3] * i>>

East == <<1, 0, 0>>   North == <<0, 1, 0>>   West == <<-1, 0, 0>>   South == <<0, -1, 0>>
Up == <<0, 0, 1>>     Down == <<0, 0, -1>>

Point(o) == {o}
Column(o, d, len) == {Step(o, d, i) : i \in 0..(len - 1)}
Dotted(o, d, len, on, off) == {Step(o, d, i) : i \in {j \in 0..(len - 1) : j % (on + off) < on}}
Floor(o, size) == Box(o, <<size, size, 1>>)
Ceiling(o, size) == Box(Step(o, Up, Cell - 1), <<size, size, 1>>)
Wall(o, face, h) ==
    CASE face = East  -> Box(Step(o, East, Cell - 1), <<1, Cell, h>>)
      [] face = West  -> Box(o, <<1, Cell, h>>)
      [] face = North -> Box(Step(o, North, Cell - 1), <<Cell, 1, h>>)
      [] face = South -> Box(o, <<Cell, 1, h>>)
      [] OTHER -> {}
Ring(o, size) == {p \in Floor(o, size) : p[1] \in {o[1], o[1] + size - 1} \/ p[2] \in {o[2], o[2] + size - 1}}

(* raw point generators *)
WallPoints(size, face, li, lj) ==
    LET r == IF size > 0 THEN 0..(size - 1) ELSE size..(-1)
        ij == {<<i, j>> \in r \X r : i <= li /\ j <= lj}
    IN CASE face = Down  -> {<<q[1], q[2], 0>> : q \in ij}
         [] face = Up    -> {<<q[1], q[2], size - 1>> : q \in ij}
         [] face = South -> {<<q[1], 0, q[2]>> : q \in ij}
         [] face = North -> {<<q[1], size - 1, q[2]>> : q \in ij}
         [] face = West  -> {<<0, q[1], q[2]>> : q \in ij}
         [] face = East  -> {<<size - 1, q[1], q[2]>> : q \in ij}

(* one drawing command: n the name, o offset, d direction, a sizes *)
Shape(c) ==
    CASE c.n = "cube" -> Point(c.o)
      [] c.n = "column" -> Column(c.o, c.d, c.a[1])
      [] c.n = "dotted_column" -> Dotted(c.o, c.d, c.a[1], c.a[2], c.a[3])
      [] c.n = "floor" -> Floor(c.o, c.a[1])
      [] c.n = "ceiling" -> Ceiling(c.o, c.a[1])
      [] c.n = "wall" -> Wall(c.o, c.d, c.a[1])
      [] c.n = "low_wall" -> Wall(c.o, c.d, 3)
      [] c.n = "ring" -> Ring(c.o, c.a[1])
      [] c.n = "rectangular_prism" -> Box(c.o, c.a)

(* k quarter turns about the centre of the cell at the origin, then to the cell pos *)
Turn1(p) == <<Cell - 1 - p[2], p[1], p[3]>>
RECURSIVE Turn(_, _)
Turn(p, k) == IF k % 4 = 0 THEN p ELSE Turn(Turn1(p), (k % 4) - 1)
Place(p, k, pos) == LET q == Turn(p, k) IN <<q[1] + Cell * pos[1], q[2] + Cell * pos[2], q[3] + Cell * pos[3]>>
Placed(c, k, pos) == {Place(p, k, pos) : p \in Shape(c)}

(* worlds are sets of <<point, texture>> *)
Without(w, pts) == {r \in w : r[1] \notin pts}
Draw(w, pts, tex) == Without(w, pts) \cup {<<p, tex>> : p \in pts}
=============================================================================
