------------------------------ MODULE KitTrace ----------------------------
(* Judges recorded drawing histories of ConstructionKitMixin and the raw     *)
(* point generators.                                                         *)
EXTENDS Kit, TraceKit
VARIABLES s, i, st

World(dump) == Range(dump)
Clauses(sc, w, e) ==
    CASE e.op = "draw" ->
          LET pts == Placed(e.c, sc.k, sc.pos)
              got == World(e.dump)
              gone == e.sub \/ e.prob = 0
          IN [C09_result |-> e.res = "ok",
              C09_once |-> Len(e.dump) = Cardinality({r[1] : r \in got}),
              C09_outside |-> Without(got, pts) = Without(w, pts),
              C09_inside |-> IF gone THEN Without(got, pts) = got
                             ELSE IF e.prob >= 100 THEN Draw(w, pts, e.tex) = got
                             ELSE {r \in got : r[1] \in pts} \subseteq {<<p, e.tex>> : p \in pts},
              \* with an even chance some voxels are drawn and some are not
              C09_chance |-> (~e.sub /\ e.prob = 50 /\ Cardinality(pts) >= 60) =>
                               Cardinality({r \in got : r[1] \in pts}) \in 1..(Cardinality(pts) - 1)]
      [] e.op = "points" ->
          LET want == CASE e.n = "wall_points" -> WallPoints(e.a[1], e.d, e.a[2], e.a[3])
                        [] e.n = "column_points" -> Column(<<0, 0, 0>>, e.d, e.a[1])
                        [] e.n = "cube_points" -> Box(<<0, 0, 0>>, e.a)
          IN [C09_points |-> Range(e.pts) = want /\ Len(e.pts) = Cardinality(want)]
      [] e.op = "refuse" -> [C09_refuse |-> e.res # "ok" /\ World(e.dump) = w]

TInit == /\ s \in 1..Len(Scenarios) /\ i = 0 /\ st = World(Scenarios[s].start)
TNext == LET sc == Scenarios[s] IN
    /\ i < Len(sc.ev) /\ i' = i + 1 /\ s' = s
    /\ LET e == sc.ev[i + 1] IN
         /\ Report(sc, i + 1, e.key, Failing(Clauses(sc, st, e)))
         /\ st' = World(e.dump)
    /\ Done(sc, i + 1)
=============================================================================
