---------------------------- MODULE VoxelTrace ----------------------------
(* Judges recorded histories of redeclipse.voxel.VoxelWorld.  Coordinates   *)
(* are recorded doubled (half voxels are legal keys).  Every event carries  *)
(* what the call put / removed and everything observable afterwards.        *)
EXTENDS Voxel, TraceKit
VARIABLES s, i, st

World(dump) == Range(dump)
Start(sc) == [w |-> EmptyWorld, ext |-> NoExtent(2 * sc.size)]

RECURSIVE GrowAll(_, _)
GrowAll(b, items) == IF items = <<>> THEN b ELSE GrowAll(Grow(b, Head(items)[1]), Tail(items))

After(st0, e) ==
    CASE e.op = "set" -> [w |-> Put(st0.w, e.items[1][1], e.items[1][2]), ext |-> GrowAll(st0.ext, e.items)]
      [] e.op = "bulk" -> [w |-> World(e.items), ext |-> GrowAll(st0.ext, e.items)]
      [] e.op = "del" -> [w |-> Del(st0.w, e.items[1][1]), ext |-> st0.ext]
      [] OTHER -> st0

Voxels(w) == {<<<<r[1][1] \div 2, r[1][2] \div 2, r[1][3] \div 2>>, r[2]>> :
                r \in {q \in w : \A k \in 1..3 : q[1][k] % 2 = 0}}

OctClauses(sc, x, e) ==
    LET v == Voxels(x.w)
        nodes == Range(e.nodes)
        ofKind(k) == {r \in nodes : r.k = k}
    IN [C04_voxels |-> {<<r.n, r.v>> : r \in ofKind("V")} = VoxelNodes(v, sc.size),
        C04_inner  |-> {r.n : r \in ofKind("C")} = InnerNodes(v, sc.size),
        C04_empty  |-> {r.n : r \in ofKind("E")} = EmptyNodes(v, sc.size),
        C04_kinds  |-> \A r \in nodes : r.k \in {"V", "C", "E"},
        C04_once   |-> Len(e.nodes) = Cardinality({r.n : r \in nodes})]

Clauses(sc, x, e) ==
    LET y == After(x, e)
    IN [\* C06: the world is exactly the map of the history, by every way of asking
        C06_result   |-> e.res = "ok",
        C06_content  |-> World(e.dump) = y.w /\ Len(e.dump) = Cardinality(y.w),
        C06_lookup   |-> \A r \in Range(e.probe) : r[2] = Get(y.w, r[1], -1),
        C06_extent   |-> e.ext = [max |-> y.ext.max, min |-> y.ext.min],
        \* C04: the octree holds exactly the voxels within the cube, exporting changes nothing
        C04_result   |-> e.op = "oct" => e.res = "ok",
        C04_pure     |-> e.op = "oct" => World(e.dump) = x.w]

TInit == /\ s \in 1..Len(Scenarios) /\ i = 0 /\ st = Start(Scenarios[s])
TNext == LET sc == Scenarios[s] IN
    /\ i < Len(sc.ev) /\ i' = i + 1 /\ s' = s
    /\ LET e == sc.ev[i + 1] IN
         /\ Report(sc, i + 1, e.key, Failing(Clauses(sc, st, e))
                  \cup IF e.op = "oct" THEN Failing(OctClauses(sc, st, e)) ELSE {})
         /\ st' = [w |-> World(e.dump), ext |-> e.ext]
    /\ Done(sc, i + 1)
=============================================================================
