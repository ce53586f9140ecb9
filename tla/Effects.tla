------------------------------- MODULE Effects ----------------------------
(* Effects applied to a finished world: a set of <<point, texture>>.        *)
EXTENDS Integers, Sequences, FiniteSets
Tex == 2
Slab(size, top) == {<<x, y, z>> : x \in 0..(size - 1), y \in 0..(size - 1), z \in 0..(top - 1)}
Pts(w) == {r[1] : r \in w}
Fill(w, pts) == {r \in w : r[1] \notin pts} \cup {<<p, Tex>> : p \in pts}
AddMissing(w, pts) == w \cup {<<p, Tex>> : p \in pts \ Pts(w)}

OnGrid(p, n) == Cardinality({k \in 1..3 : p[k] % n = 0}) >= 2
GridPts(size, top, n) == {p \in Slab(size, top) : OnGrid(p, n)}
Edges(p, size) == Cardinality({k \in 1..3 : p[k] = 0}) + Cardinality({k \in 1..3 : p[k] = size - 1})
BoxPts(size, h) == {p \in Slab(size, h) : Edges(p, size) >= 1}
OutlinePts(size, h) == {p \in Slab(size, h) : Edges(p, size) > 1}
CellPts(c) == {<<8 * c[1] + x, 8 * c[2] + y, 8 * c[3] + z>> : x \in 0..7, y \in 0..7, z \in 0..7}

(* position functions, as far as they decide: 2 surely stays as it is,       *)
(* 0 surely changes, 1 may go either way                                      *)
Fate(f, p) ==
    CASE f = "one" -> 2
      [] f = "two" -> 2
      [] f = "zero" -> 0
      [] f = "neg" -> 0
      [] f = "half" -> 1
      [] f = "checker" -> IF (p[1] + p[2] + p[3]) % 2 = 0 THEN 2 ELSE 0
      [] f = "low" -> IF p[3] < 2 THEN 2 ELSE 0
      [] f = "skew" -> IF p[1] < 2 * p[2] THEN 2 ELSE IF p[1] = 2 * p[2] THEN 1 ELSE 0
With(S, f, n) == {p \in S : Fate(f, p) = n}
(* what decay / growth may do *)
DecayOK(w, v, size, top, f) ==
    LET S == Slab(size, top) IN
    /\ v \subseteq w
    /\ \A r \in w \ v : r[1] \in S /\ Fate(f, r[1]) # 2
    /\ \A r \in v : r[1] \in S => Fate(f, r[1]) # 0
GrowthOK(w, v, size, top, f) ==
    LET S == Slab(size, top) IN
    /\ w \subseteq v
    /\ \A r \in v \ w : r[1] \in S /\ Fate(f, r[1]) # 2 /\ r[2] = Tex /\ r[1] \notin Pts(w)
    /\ \A p \in S : Fate(f, p) = 0 => p \in Pts(v)
(* with many undecided points both outcomes occur *)
BothOccur(S, f, changed) ==
    LET m == With(S, f, 1) IN Cardinality(m) >= 64 => (m \cap changed # {} /\ m \ changed # {})
=============================================================================
