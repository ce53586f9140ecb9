----------------------------- MODULE VoxTrace ------------------------------
EXTENDS Vox, TraceKit
VARIABLES s, i, st
AsSet(rows) == {<<<<r[1], r[2], r[3]>>, r[4]>> : r \in Range(rows)}
Same(rd, d) == /\ rd.ok = d.ok
               /\ d.ok => rd.size = d.size /\ rd.vox = d.vox /\ rd.pal = d.pal
(* the world of an event: listed whole, or the specification state *)
World(w, e) == IF e.whole THEN AsSet(e.world) ELSE w
ExportClauses(w, e) ==
    LET d == Decode(e.b)
        x == Exported(World(w, e))
    IN [C20_written |-> e.res = "ok",
        C20_formed |-> e.res = "ok" => WellFormed(e.b),
        C20_voxels |-> d.ok => Range(d.vox) = x /\ Len(d.vox) = Cardinality(x),
        C20_size |-> d.ok => Encloses(d.size, x),
        C20_palette |-> d.ok => PaletteOf(d.pal, e.atlas),
        C20_readable |-> d.ok => Same(e.rd, d),
        C20_world |-> ~e.whole => AsSet(e.world) = w]
ReadClauses(e) ==
    LET d == Decode(e.b) IN
    [C21_accepts |-> d.ok => e.rd.ok,
     C21_rejects |-> ~d.ok => ~e.rd.ok,
     C21_contents |-> (d.ok /\ e.rd.ok) => Same(e.rd, d)]
RenderClauses(e) ==
    LET d == Decode(e.b)
        F == Final(d.vox)
        M == Shifted(d.vox, e.add)
        C == {CellOf(M[j], e.q, e.pos) : j \in F}
    IN [C21_rendered |-> e.res = "ok",
        C21_count |-> Len(e.dump) = Cardinality(F),
        C21_voxels |-> Range(e.dump) = {Drawn(M[j], d.pal, e.q, e.pos) : j \in F},
        C21_cells |-> /\ (IF e.more THEN C \subseteq Range(e.cells) ELSE Range(e.cells) = C)
                      /\ Len(e.cells) = Cardinality(Range(e.cells))]
Clauses(w, e) == CASE e.op = "export" -> ExportClauses(w, e)
                   [] e.op = "read" -> ReadClauses(e)
                   [] e.op = "render" -> RenderClauses(e)
                   [] OTHER -> [C20_edit |-> e.res = "ok"]
Drop(w, p) == {v \in w : v[1] # p}
After(w, e) == CASE e.op = "set" -> Drop(w, e.p) \cup {<<e.p, e.t>>}
                 [] e.op = "del" -> Drop(w, e.p)
                 [] OTHER -> w
TInit == s \in 1..Len(Scenarios) /\ i = 0 /\ st = {}
TNext == LET sc == Scenarios[s] IN
    /\ i < Len(sc.ev) /\ i' = i + 1 /\ s' = s
    /\ LET e == sc.ev[i + 1] IN
         /\ Report(sc, i + 1, e.key, Failing(Clauses(st, e)))
         /\ st' = After(st, e)
    /\ Done(sc, i + 1)
=============================================================================
