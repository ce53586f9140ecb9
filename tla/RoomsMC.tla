------------------------------ MODULE RoomsMC -----------------------------
(* All small rooms, built anywhere, turned and moved like a mirrored copy.  *)
EXTENDS Rooms, TLC, Json
CONSTANTS Rec, Depth, PosSet, Shapes
VARIABLES cells, doors, k, pos, n, hist
vars == <<cells, doors, k, pos, n, hist>>
O == <<0, 0, 0>>
AllDoors(cs) == {<<Plus(c, f), f>> : c \in cs, f \in Flat}
GoodDoors(cs) == {d \in AllDoors(cs) : DoorOK(cs, d)}
Ref == O                       \* the room is described facing east at the origin
Init == /\ cells \in Shapes /\ doors = GoodDoors(cells) /\ k = 0 /\ pos = O /\ n = 0 /\ hist = <<>>
(* built anew from its description *)
New(j, p) == /\ n < Depth /\ n' = n + 1 /\ k' = j /\ pos' = p
             /\ \E cs \in {MovedCells(cells, pos, O, 4 - k)} :
                   cells' = MovedCells(cs, O, p, j) /\ doors' = MovedDoors(GoodDoors(cs), O, p, j)
             /\ hist' = IF Rec THEN Append(hist, [how |-> "new", k |-> j, pos |-> p]) ELSE hist
(* moved by assigning position and orientation, as mirrored copies are *)
Set(j, p) == /\ n < Depth /\ n' = n + 1 /\ k' = j /\ pos' = p
             /\ cells' = MovedCells(cells, pos, p, j - k + 4) /\ doors' = MovedDoors(doors, pos, p, j - k + 4)
             /\ hist' = IF Rec THEN Append(hist, [how |-> "set", k |-> j, pos |-> p]) ELSE hist
Next == \E j \in 0..3, p \in PosSet : New(j, p) \/ Set(j, p)
Spec == Init /\ [][Next]_vars
DoorsStay == doors # {} /\ \A d \in doors : DoorOK(cells, d)
DoorsTurn == doors = GoodDoors(cells)
(* a cell filled with voxels and a light in its middle follow their cell *)
Vox(c) == {<<8 * c[1] + x, 8 * c[2] + y, << <<8 * c[3], 8 * c[3] + 7, 1>> >> >> : x, y \in {0, 3, 7}}
Light(c) == <<1, 32 * c[1] + 16, 32 * c[2] + 16, 32 * c[3] + 16, 0>>
ASSUME Follow == \A c \in {O, <<1, 0, 0>>, <<2, -1, 1>>} : \A j \in 0..3 : \A q \in PosSet :
                   LET m == MovedCell(c, O, q, j) IN
                   /\ \A v \in MovedCols(Vox(c), O, q, j) : ColInside({m}, v)
                   /\ EntInside({m}, MovedEnt(Light(c), O, q, j))
                   /\ MovedEnt(Light(c), O, q, j) = <<1, 32 * m[1] + 16, 32 * m[2] + 16, 32 * m[3] + 16, 90 * j>>
ASSUME Rigid == \A a, b \in 0..3 : \A x, y \in {-9, 0, 5, 7, 12} :
                   VoxTurn(VoxTurn(x, y, a)[1], VoxTurn(x, y, a)[2], b) = VoxTurn(x, y, a + b)
Emit == (Rec /\ Len(hist) = Depth) => PrintT("@@G " \o ToJson(hist))
ShapeSet == {{O}, {O, <<1, 0, 0>>}, {O, <<1, 0, 0>>, <<1, 1, 0>>}, {<<0, 1, 0>>, <<1, 0, 0>>}, {O, <<0, 0, 1>>},
             {O, <<1, 0, 0>>, <<0, 1, 0>>, <<1, 1, 1>>}}
OneShape == {{O}}
Positions == {<<0, 0, 0>>, <<5, 6, 1>>, <<2, 9, 3>>}
GenPositions == {<<8, 9, 3>>, <<14, 6, 0>>, <<9, 20, 7>>, <<20, 11, 12>>}
=============================================================================
