---------------------------- MODULE EffectsTrace --------------------------
EXTENDS Effects, TraceKit
VARIABLES s, i, st
W(dump) == Range(dump)
Clauses(sc, w, e) ==
    LET v == W(e.dump)
        S == Slab(sc.size, e.top)
        h == IF e.a = 0 THEN sc.size ELSE e.a
    IN [C24_result |-> e.res = "ok",
        C24_once |-> Len(e.dump) = Cardinality(Pts(v)),
        C24_points |->
          CASE e.op = "grid" -> v = AddMissing(w, GridPts(sc.size, e.top, e.a))
            [] e.op = "box" -> v = Fill(w, BoxPts(sc.size, h))
            [] e.op = "outline" -> v = Fill(w, OutlinePts(sc.size, h))
            [] e.op = "decay" -> DecayOK(w, v, sc.size, e.top, e.f)
            [] e.op = "growth" -> GrowthOK(w, v, sc.size, e.top, e.f)
            [] e.op = "endcap" -> v = Fill(w, UNION {CellPts(c) : c \in Range(e.cells)})
            [] e.op = "start" -> TRUE
            [] e.op = "gradient" -> TRUE,
        C24_chance |->
          CASE e.op = "decay" -> BothOccur(Pts(w) \cap S, e.f, Pts(w) \ Pts(v))
            [] e.op = "growth" -> BothOccur(S \ Pts(w), e.f, Pts(v) \ Pts(w))
            [] OTHER -> TRUE,
        \* position functions are probabilities that start at one and fall with height (or the opposite)
        C24_gradient |->
          e.op = "gradient" =>
             LET g == e.vals IN
             /\ \A k \in 1..Len(g) : g[k] >= 0 /\ g[k] <= 1000000
             /\ \A k \in 1..(Len(g) - 1) : IF e.f = "vertical_gradient2inv" THEN g[k] <= g[k + 1] ELSE g[k] >= g[k + 1]
             /\ g[1] = (IF e.f = "vertical_gradient2inv" THEN 0 ELSE 1000000)
             /\ e.f = "vertical_gradient" => \A k \in 1..Len(g) : g[k] * e.a = 1000000 * (e.a - (k - 1) * (e.a \div 16))
             /\ e.f = "vertical_gradient2inv" => \A k \in 1..Len(g) : g[k] + e.other[k] \in {999999, 1000000}]

TInit == /\ s \in 1..Len(Scenarios) /\ i = 0 /\ st = {}
TNext == LET sc == Scenarios[s] IN
    /\ i < Len(sc.ev) /\ i' = i + 1 /\ s' = s
    /\ LET e == sc.ev[i + 1] IN
         /\ Report(sc, i + 1, e.key, Failing(Clauses(sc, st, e)))
         /\ st' = W(e.dump)
    /\ Done(sc, i + 1)
=============================================================================
