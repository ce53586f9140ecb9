------------------------------- MODULE Rooms ------------------------------
(* Rooms: the cells they occupy, their doors, what they render, and how all *)
(* of it is turned and moved.  k counts quarter turns from east to north.   *)
EXTENDS Integers, Sequences, FiniteSets
East == <<1, 0, 0>>   North == <<0, 1, 0>>   West == <<-1, 0, 0>>   South == <<0, -1, 0>>
Flat == {East, North, West, South}
Plus(p, q) == <<p[1] + q[1], p[2] + q[2], p[3] + q[3]>>
Minus(p, q) == <<p[1] - q[1], p[2] - q[2], p[3] - q[3]>>
(* quarter turns: directions and cells about a cell, voxels about the centre *)
(* of the cell at the origin (8 wide), points (in quarters of a voxel) too   *)
CellTurn(p, k) == CASE k % 4 = 0 -> p
                    [] k % 4 = 1 -> <<-p[2], p[1], p[3]>>
                    [] k % 4 = 2 -> <<-p[1], -p[2], p[3]>>
                    [] k % 4 = 3 -> <<p[2], -p[1], p[3]>>
About(w, x, y, k) == CASE k % 4 = 0 -> <<x, y>>
                       [] k % 4 = 1 -> <<w - y, x>>
                       [] k % 4 = 2 -> <<w - x, w - y>>
                       [] k % 4 = 3 -> <<y, w - x>>
VoxTurn(x, y, k) == About(7, x, y, k)
PointTurn(x, y, k) == About(32, x, y, k)

(* a room is a set of cells and a set of doors <<target cell, facing>> *)
DoorOK(cells, d) == /\ d[2] \in Flat
                    /\ d[1] \notin cells
                    /\ Minus(d[1], d[2]) \in cells
(* from the cell o, moved to the cell q after k turns *)
MovedCell(c, o, q, k) == Plus(q, CellTurn(Minus(c, o), k))
MovedCells(cells, o, q, k) == {MovedCell(c, o, q, k) : c \in cells}
MovedDoor(d, o, q, k) == <<MovedCell(d[1], o, q, k), CellTurn(d[2], k)>>
MovedDoors(doors, o, q, k) == {MovedDoor(d, o, q, k) : d \in doors}
(* columns of voxels <<x, y, runs>> with runs <<from z, to z, texture>> *)
MovedRuns(rs, dz) == [i \in 1..Len(rs) |-> <<rs[i][1] + dz, rs[i][2] + dz, rs[i][3]>>]
MovedCol(c, o, q, k) ==
    LET xy == VoxTurn(c[1] - 8 * o[1], c[2] - 8 * o[2], k)
    IN <<xy[1] + 8 * q[1], xy[2] + 8 * q[2], IF o[3] = q[3] THEN c[3] ELSE MovedRuns(c[3], 8 * (q[3] - o[3]))>>
MovedCols(cols, o, q, k) == {MovedCol(c, o, q, k) : c \in cols}
(* entities <<type, x, y, z, yaw>>; yaw -1 where there is none *)
MovedEnt(t, o, q, k) ==
    LET xy == PointTurn(t[2] - 32 * o[1], t[3] - 32 * o[2], k)
    IN <<t[1], xy[1] + 32 * q[1], xy[2] + 32 * q[2], t[4] + 32 * (q[3] - o[3]), IF t[5] < 0 THEN -1 ELSE (t[5] + 90 * k) % 360>>
MovedEnts(ents, o, q, k) == {MovedEnt(t, o, q, k) : t \in ents}

ColInside(cells, c) ==
    \A i \in 1..Len(c[3]) : \A z \in (c[3][i][1] \div 8)..(c[3][i][2] \div 8) : <<c[1] \div 8, c[2] \div 8, z>> \in cells
(* inside the horizontal extent of the cells, at most one cell above them *)
EntInside(cells, t) ==
    \A j \in 1..3 : \E a, b \in cells : /\ 32 * a[j] <= t[j + 1]
                                        /\ t[j + 1] <= 32 * (b[j] + 1 + IF j = 3 THEN 1 ELSE 0)
=============================================================================
