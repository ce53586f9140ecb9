------------------------------- MODULE LandMC -------------------------------
(* A small landscape built column by column, then planted.                   *)
EXTENDS Land
CONSTANTS Size, Heights, Textures
VARIABLES cols, ents, at
vars == <<cols, ents, at>>
Cells == (0..(Size - 1)) \X (0..(Size - 1))
Init == cols = [c \in {} |-> <<>>] /\ ents = {} /\ at = 0
Cell(n) == <<n \div Size, n % Size>>
Fits(c, h) == \A d \in DOMAIN cols : (Abs(c[1] - d[1]) + Abs(c[2] - d[2]) = 1) => Abs(SnowHeight(cols[d]) - h) <= 1
Grow == /\ at < Size * Size /\ at' = at + 1 /\ UNCHANGED ents
        /\ \E h \in Heights, t \in Textures :
             /\ Fits(Cell(at), h)
             /\ cols' = [c \in DOMAIN cols \cup {Cell(at)} |-> IF c = Cell(at) THEN SnowColumn(c[1], c[2], Size, h, t) ELSE cols[c]]
Plant == /\ at = Size * Size /\ ents = {} /\ UNCHANGED <<cols, at>>
         /\ \E c \in Cells, k \in {"spawn", "tree", "rock"}, r \in 0..5 :
              ents' = {[kind |-> k, x |-> 4 * c[1], y |-> 4 * c[2], z |-> 4 * SnowHeight(cols[c]) - (IF k = "rock" THEN r ELSE 0)]}
Next == Grow \/ Plant
Spec == Init /\ [][Next]_vars
Top(c) == cols[c][1][2]
Legal == \A c \in DOMAIN cols : IsSnow(cols[c], c[1], c[2], Size)
NoGap == \A c, d \in DOMAIN cols : (Abs(c[1] - d[1]) + Abs(c[2] - d[2]) = 1) =>
            cols[c][1][1] <= Top(d) + 1 /\ cols[d][1][1] <= Top(c) + 1
Walled == \A c, d \in DOMAIN cols : (Abs(c[1] - d[1]) + Abs(c[2] - d[2]) = 1 /\ Border(c[1], c[2], Size) /\ ~Border(d[1], d[2], Size)) => Top(c) >= Top(d) + 8
Standing == \A e \in ents : LET c == <<e.x \div 4, e.y \div 4>> IN
               /\ StandsOn(e, SnowHeight(cols[c])) /\ e.z >= 4 * cols[c][1][1]
               /\ (~Border(c[1], c[2], Size) /\ e.kind # "rock") => e.z = 4 * (Top(c) + 1)
=============================================================================
