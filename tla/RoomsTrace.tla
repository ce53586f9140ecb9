----------------------------- MODULE RoomsTrace ---------------------------
(* One scenario per kind of room and choice of options: the room facing     *)
(* east first, then built or moved elsewhere and rendered again.            *)
EXTENDS Rooms, TraceKit
VARIABLES s, i
Doors(e) == {<<<<d[1], d[2], d[3]>>, <<d[4], d[5], d[6]>>>> : d \in Range(e.doors)}
Clauses(sc, r, e) ==
    LET o == IF e.how = "new" THEN r.pos ELSE r.anchor
        cells == Range(e.cells)
        doors == Doors(e)
        cols == Range(e.cols)
        ents == Range(e.ents)
    IN [C11_some |-> doors # {} /\ cells # {},
        C11_flat |-> \A d \in doors : d[2] \in Flat,
        C11_out |-> \A d \in doors : d[1] \notin cells,
        C11_adjacent |-> \A d \in doors : Minus(d[1], d[2]) \in cells,
        C11_cells |-> cells = MovedCells(Range(r.cells), o, e.pos, e.k),
        C11_doors |-> doors = MovedDoors(Doors(r), o, e.pos, e.k) /\ Len(e.doors) = Len(r.doors),
        C10_inside |-> \A c \in cols : ColInside(cells, c),
        C10_near |-> \A t \in ents : EntInside(cells, t),
        C10_shape |-> sc.rigid => cols = MovedCols(Range(r.cols), o, e.pos, e.k),
        C10_things |-> ents = MovedEnts(Range(r.ents), o, e.pos, e.k) /\ Len(e.ents) = Len(r.ents),
        C10_some |-> Len(r.cols) > 0 => Len(e.cols) > 0]
TInit == s \in 1..Len(Scenarios) /\ i = 0
TNext == LET sc == Scenarios[s] IN
    /\ i < Len(sc.ev) /\ i' = i + 1 /\ s' = s
    /\ LET e == sc.ev[i + 1] IN Report(sc, i + 1, e.key, Failing(Clauses(sc, sc.ev[1], e)))
    /\ Done(sc, i + 1)
=============================================================================
