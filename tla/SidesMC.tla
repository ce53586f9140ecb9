------------------------------ MODULE SidesMC ------------------------------
(* Rooms and their mirror images on a small map; the first ones hold flags.  *)
EXTENDS Sides
CONSTANTS M, N, MaxRooms
VARIABLES rooms, cols, things
vars == <<rooms, cols, things>>
O == <<0, 0, 0>>   C == <<N, N, 0>>
Shapes == {{O}, {O, <<1, 0, 0>>}, {O, <<1, 0, 0>>, <<1, 1, 0>>}}
(* a pole off the middle of each cell, of a height that tells the cells apart *)
Ref(sh) == {<<8 * c[1] + 1, 8 * c[2] + 3, <<<<0, 1 + c[1] + c[2], 1>>>>>> : c \in sh}
Lamp == <<1, 6, 10, 8, 90, "lamp">>
Images(sh, p, k) == {[shape |-> sh, pos |-> MovedCell(p, C, C, j), k |-> (k + j) % 4] : j \in Turns(M)}
CellsOf(r) == MovedCells(r.shape, O, r.pos, r.k)
Inside(cs) == \A c \in cs : c[1] \in 0..(2 * N) /\ c[2] \in 0..(2 * N)
Put(S, flag) == /\ rooms' = rooms \cup {[shape |-> r.shape, pos |-> r.pos, k |-> r.k, flag |-> flag] : r \in S}
                /\ cols' = cols \cup UNION {MovedCols(Ref(r.shape), O, r.pos, r.k) : r \in S}
                /\ things' = things \cup UNION {MovedThings({Lamp}, O, r.pos, r.k) : r \in S}
Free(S) == /\ \A a \in S : Inside(CellsOf(a)) /\ \A r \in rooms : CellsOf(a) \cap CellsOf(r) = {}
           /\ \A a, b \in S : a # b => CellsOf(a) \cap CellsOf(b) = {}
           /\ Cardinality(S) = Cardinality(Turns(M))
Init == rooms = {} /\ cols = {} /\ things = {}
Next == /\ Cardinality(rooms) < MaxRooms * Cardinality(Turns(M))
        /\ \E sh \in Shapes, x, y \in 0..(2 * N), k \in 0..3 :
             LET S == Images(sh, <<x, y, 0>>, k) IN Free(S) /\ Put(S, rooms = {})
Spec == Init /\ [][Next]_vars
Fair == SameGround(cols, M, C) /\ SameThings(things, M, C)
Flags == {r \in rooms : r.flag}
OwnFlag == rooms # {} => /\ Cardinality(Flags) = M
                         /\ \A a, b \in Flags : a # b => TeamOf(a.k) # TeamOf(b.k)
Lit == \A r \in rooms : \E t \in things : <<t[2] \div 32, t[3] \div 32, 0>> \in CellsOf(r)
=============================================================================
