-------------------------------- MODULE Ivec -------------------------------
(* The integer vectors of the map format: exact integer algebra.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Each(a, F(_)) == <<F(a[1]), F(a[2]), F(a[3])>>
Both(a, b, F(_, _)) == <<F(a[1], b[1]), F(a[2], b[2]), F(a[3], b[3])>>
Bit(x, k) == (x \div (2 ^ k)) % 2                 \* also for negative x: two's complement
RECURSIVE AndK(_, _, _)
AndK(x, m, k) == IF k = 0 THEN 0 ELSE (Bit(x, k - 1) * Bit(m, k - 1) * (2 ^ (k - 1))) + AndK(x, m, k - 1)
(* bitwise and; m may be the complement of a small number                    *)
And(x, m) == IF m >= 0 THEN AndK(x, m, 16) ELSE x - AndK(x, -m - 1, 16)
Mask(a, m) == Each(a, LAMBDA x : And(x, m))
Shl(a, n) == Each(a, LAMBDA x : x * (2 ^ n))
Sub(a, b) == Both(a, b, LAMBDA x, y : x - y)
Add(a, b) == Both(a, b, LAMBDA x, y : x + y)
Mul(a, n) == Each(a, LAMBDA x : x * n)
Dot(a, b) == (a[1] * b[1]) + (a[2] * b[2]) + (a[3] * b[3])
Cross(a, b) == <<(a[2] * b[3]) - (a[3] * b[2]), (a[3] * b[1]) - (a[1] * b[3]), (a[1] * b[2]) - (a[2] * b[1])>>
IsZero(a) == a = <<0, 0, 0>>
(* the corner of octant k of the cube of side 2s at o                        *)
Octant(k, o, n) == <<o[1] + (Bit(k, 0) * n), o[2] + (Bit(k, 1) * n), o[3] + (Bit(k, 2) * n)>>

Apply(op, a, b, n) ==
    CASE op = "mask" -> Mask(a, n)
      [] op = "shl" -> Shl(a, n)
      [] op = "sub" -> Sub(a, b)
      [] op = "add" -> Add(a, b)
      [] op = "mul" -> Mul(a, n)
      [] op = "cross" -> Cross(a, b)
      [] op = "octant" -> Octant(b[1], a, n)
      [] OTHER -> a
=============================================================================
