------------------------------ MODULE Vector ------------------------------
(* Exact vector algebra.  A vector is [c |-> kind, p |-> <<x, y, z>>] with   *)
(* kinds "B" (plain), "F" (fine) and "C" (coarse).  All coordinates are      *)
(* multiplied by U so that halves (and quotients by 2, 4, 8) are integers.   *)
EXTENDS Integers, Sequences
CONSTANT U

RECURSIVE RotK(_, _)
RotK(p, k) == IF k = 0 THEN p ELSE RotK(<<-p[2], p[1], p[3]>>, k - 1)
Rot(p, k) == RotK(p, k % 4)                \* k quarter turns, counterclockwise seen from above
Add(p, q) == <<p[1] + q[1], p[2] + q[2], p[3] + q[3]>>
Sub(p, q) == <<p[1] - q[1], p[2] - q[2], p[3] - q[3]>>
Scale(p, m) == <<p[1] * m, p[2] * m, p[3] * m>>
RotAbout(p, off, k) == Sub(Rot(Add(p, off), k), off)
FloorBy(p, m) == [k \in 1..3 |-> (p[k] \div (U * m)) * U]
DivBy(p, m) == [k \in 1..3 |-> p[k] \div m]

V(c, p) == [c |-> c, p |-> p]
Raise == V("raise", <<0, 0, 0>>)
FineP(v) == IF v.c = "C" THEN Scale(v.p, 8) ELSE v.p
ToFine(v) == IF v.c = "B" THEN Raise ELSE V("F", FineP(v))
ToCoarse(v) == IF v.c = "F" THEN V("C", FloorBy(v.p, 8)) ELSE Raise
ToEntity(v) == IF v.c = "B" THEN Raise ELSE V("F", Scale(FineP(v), 4))
Mixed(a, b) == {a.c, b.c} = {"F", "C"}
Plus(a, b) == IF a.c = b.c THEN V(a.c, Add(a.p, b.p))
              ELSE IF Mixed(a, b) THEN V("F", Add(FineP(a), FineP(b))) ELSE Raise
Minus(a, b) == IF a.c = b.c THEN V(a.c, Sub(a.p, b.p))
               ELSE IF Mixed(a, b) THEN V("F", Sub(FineP(a), FineP(b))) ELSE Raise
Equal(a, b) == IF a.c = b.c THEN a.p = b.p ELSE Mixed(a, b) /\ FineP(a) = FineP(b)
Before(p, q) == \/ p[1] < q[1]
                \/ p[1] = q[1] /\ p[2] < q[2]
                \/ p[1] = q[1] /\ p[2] = q[2] /\ p[3] < q[3]

(* the four directions, in quarter turns from east *)
Dirs == <<"EAST", "NORTH", "WEST", "SOUTH">>
Unit(k) == Rot(<<U, 0, 0>>, k)
Yaw(angle, k) == (angle + 90 * k) % 360

(* the value of one operation: v the vector, b another one, n a number *)
Apply(op, v, b, n) ==
    CASE op = "rot"    -> V(v.c, Rot(v.p, n))
      [] op = "add"    -> Plus(v, b)
      [] op = "sub"    -> Minus(v, b)
      [] op = "offrot" -> IF Plus(v, b) = Raise THEN Raise
                          ELSE Minus(V(Plus(v, b).c, Rot(Plus(v, b).p, n)), b)
      [] op = "fine"   -> ToFine(v)
      [] op = "coarse" -> ToCoarse(v)
      [] op = "entity" -> ToEntity(v)
      [] op = "mul"    -> V(v.c, Scale(v.p, n))
      [] op = "div"    -> V(v.c, DivBy(v.p, n))
      [] op = "floordiv" -> V(v.c, FloorBy(v.p, n))
      [] op = "vox"    -> V(v.c, FloorBy(v.p, 1))
=============================================================================
