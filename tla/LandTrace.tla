----------------------------- MODULE LandTrace -----------------------------
(* Checks the landscapes of the generators, row by row, then their entities. *)
EXTENDS Land, TraceKit
VARIABLES s, i, st

Tower(cols) == {j \in 1..Len(cols) : Len(cols[j]) > 0}
Height(kind, col) == IF kind = "snow" THEN SnowHeight(col) ELSE col[1][2] + 1
IsTree(kind, col) == kind = "town" /\ Len(col) > 0 /\ col[1][3] = Tree
(* neighbours in a row, and the row before; trees stand for nothing          *)
Gapless(kind, a, b) == (Len(a) > 0 /\ Len(b) > 0 /\ ~IsTree(kind, a) /\ ~IsTree(kind, b)) => Closed(Height(kind, a), Height(kind, b))
(* a block of 4 x 4 columns is built over, or it is not                      *)
Houses(cols, b) == {j \in (4 * b + 1)..(4 * b + 4) : Len(cols[j]) = 2}
Bare(cols, b) == {j \in (4 * b + 1)..(4 * b + 4) : Len(cols[j]) = 1 /\ cols[j][1][3] = Ground}
Row(sc, v, e) ==
    LET k == sc.land cs == e.cols n == sc.size
        prev == IF e.i = 0 THEN cs ELSE v.row
        blocks == 0..((n \div 4) - 1)
    IN [C33_covered |-> Len(cs) = n /\ Tower(cs) = 1..n,
        C33_column |-> \A j \in Tower(cs) : IF k = "snow" THEN IsSnow(cs[j], e.i, j - 1, n) ELSE IsTown(cs[j], sc.top),
        C33_closed |-> /\ \A j \in 2..Len(cs) : Gapless(k, cs[j - 1], cs[j])
                       /\ \A j \in 1..Len(cs) : j <= Len(prev) => Gapless(k, prev[j], cs[j]),
        C33_blocks |-> (k = "town" /\ Len(cs) = n) => \A b \in blocks :
                           /\ Houses(cs, b) = {} \/ Bare(cs, b) = {}
                           /\ (e.i % 4 # 0 /\ Len(prev) = n) => /\ Houses(cs, b) = {} \/ Bare(prev, b) = {}
                                                                /\ Bare(cs, b) = {} \/ Houses(prev, b) = {}]
Ents(sc, v, e) ==
    LET news == e.new IN
    [C33_kept |-> e.kept,
     C33_stands |-> \A q \in 1..Len(news) : LET x == news[q] a == x.x \div 4 b == x.y \div 4 IN
         /\ x.x = 4 * a /\ x.y = 4 * b /\ a \in 0..(sc.size - 1) /\ b \in 0..(sc.size - 1)
         /\ StandsOn(x, v.heights[a + 1][b + 1]),
     C33_apart |-> \A q, w \in 1..Len(news) : (q # w /\ news[q].kind = news[w].kind) => <<news[q].x, news[q].y>> # <<news[w].x, news[w].y>>,
     C33_start |-> sc.land = "snow" => \E q \in 1..Len(news) : news[q].kind = "spawn",
     C33_planted |-> sc.land = "snow" => (\E q \in 1..Len(news) : news[q].kind = "tree"),
     C33_bare |-> sc.land = "town" => news = <<>>]
Clauses(sc, v, e) ==
    CASE e.op = "row" -> Row(sc, v, e)
      [] e.op = "ents" -> Ents(sc, v, e)
      [] e.op = "run" -> [C33_runs |-> e.ok, C33_settings |-> e.ok => e.vars, C33_size |-> e.ok => e.rest = 0]
      [] OTHER -> [C33_same |-> e.same]
After(sc, v, e) ==
    IF e.op = "row" THEN [row |-> e.cols, heights |-> Append(v.heights, [j \in 1..Len(e.cols) |-> IF Len(e.cols[j]) = 0 THEN -99 ELSE Height(sc.land, e.cols[j])])]
    ELSE v
TInit == s \in 1..Len(Scenarios) /\ i = 0 /\ st = [row |-> <<>>, heights |-> <<>>]
TNext == LET sc == Scenarios[s] IN
    /\ i < Len(sc.ev) /\ i' = i + 1 /\ s' = s
    /\ LET e == sc.ev[i + 1] IN
         /\ Report(sc, i + 1, e.key, Failing(Clauses(sc, st, e)))
         /\ st' = After(sc, st, e)
    /\ Done(sc, i + 1)
=============================================================================
