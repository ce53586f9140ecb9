-------------------------------- MODULE Upm -------------------------------
(* Placing rooms on the cells of a world: register of occupied cells, open  *)
(* doors, mirror images, links, end caps.                                   *)
EXTENDS Rooms
CONSTANTS W, Ctr                  \* edge length of the world in cells, cell the mirrors turn about
O == <<0, 0, 0>>
Legal(c) == \A j \in 1..3 : 0 <= c[j] /\ c[j] < W
Center == <<Ctr, Ctr, 0>>
MirrorTurns(m) == CASE m = 1 -> <<0>> [] m = 2 -> <<0, 2>> [] m = 4 -> <<0, 1, 2, 3>>
Turn16(p, j) == MovedCell(p, Center, Center, j)
(* a room: cells c, doors d (as pairs), facing k, kind t with options f      *)
Image(r, j) == [r EXCEPT !.c = MovedCells(@, Center, Center, j), !.d = MovedDoors(@, Center, Center, j), !.k = (@ + j) % 4]
Images(r, m) == [n \in 1..Len(MirrorTurns(m)) |-> Image(r, MirrorTurns(m)[n])]
(* shape sh = [c, d] of a kind described facing east at the origin, built at p facing k *)
Built(sh, k, p) == [c |-> MovedCells(sh.c, O, p, k), d |-> MovedDoors(sh.d, O, p, k)]

Overlap(rs) == \E a, b \in 1..Len(rs) : a < b /\ rs[a].c \cap rs[b].c # {}
(* the room with all images fits into the free cells occ leaves *)
Fits(occ, r, m) ==
    LET rs == Images(r, m) IN
    /\ \A a \in 1..Len(rs) : \A c \in rs[a].c : Legal(c) /\ c \notin occ
    /\ \A a \in 1..Len(rs) : \A d \in rs[a].d : Legal(d[1])
    /\ ~Overlap(rs)
(* how many of the rooms can be registered one after the other before one is refused *)
RECURSIVE Accepted(_, _, _)
Accepted(occ, rs, n) == IF n > Len(rs) \/ (rs[n].c \cap occ # {}) THEN n - 1
                        ELSE Accepted(occ \cup rs[n].c, rs, n + 1)

(* open doors <<target cell, index of the room, facing>> *)
DoorsOf(n, r) == {<<d[1], n, d[2]>> : d \in r.d}
NewDoors(from, add) == UNION {DoorsOf(from + n, add[n]) : n \in 1..Len(add)}
Open(front, from, add, occ) == {d \in front \cup NewDoors(from, add) : Legal(d[1]) /\ d[1] \notin occ}
CellsOf(rs) == UNION {rs[n].c : n \in 1..Len(rs)}
Opp(d) == CellTurn(d, 2)
(* the ways to attach a shape facing k at an open door *)
Attached(sh, k, door) ==
    LET b == Built(sh, k, O)
    IN {[c |-> MovedCells(b.c, O, Minus(door[1], Minus(d[1], d[2])), 0),
         d |-> MovedDoors(b.d, O, Minus(door[1], Minus(d[1], d[2])), 0), k |-> k] :
        d \in {x \in b.d : x[2] = Opp(door[3])}}
CanAttach(occ, sh, k, door, m) == \E r \in Attached(sh, k, door) : Fits(occ, r, m)
(* kinds are sets of shapes (one per choice of options); the options are up to chance *)
MustAttach(occ, kinds, door, m) ==
    \E shs \in kinds : \E k \in 0..3 : \A sh \in shs : CanAttach(occ, sh, k, door, m)
MayAttach(occ, kinds, door, m) ==
    \E shs \in kinds : \E k \in 0..3 : \E sh \in shs : CanAttach(occ, sh, k, door, m)
(* an end cap is not mirrored, only its cells matter *)
CanCap(occ, sh, k, door) == \E r \in Attached(sh, k, door) : \A c \in r.c : Legal(c) /\ c \notin occ

(* two rooms are joined: doors face each other across the border of a and b  *)
Joined(a, b) == \E d \in a.d, e \in b.d : e[2] = Opp(d[2]) /\ e[1] = Minus(d[1], d[2]) /\ d[1] \in b.c /\ e[1] \in a.c

(* symmetric under the mirror turns *)
TurnedSet(S, j) == {Turn16(c, j) : c \in S}
RoomLook(r) == <<r.t, r.f, r.k, r.c, r.d>>
Looks(rs) == {RoomLook(rs[n]) : n \in 1..Len(rs)}
TurnedLooks(rs, j) == {RoomLook(Image(rs[n], j)) : n \in 1..Len(rs)}
DoorSet(front) == {<<d[1], d[3]>> : d \in front}
TurnedDoorSet(front, j) == {MovedDoor(x, Center, Center, j) : x \in DoorSet(front)}
MirrorStep(m) == CASE m = 1 -> 0 [] m = 2 -> 2 [] m = 4 -> 1
Symmetric(rs, occ, front, m) ==
    LET j == MirrorStep(m) IN
    m > 1 => /\ TurnedSet(occ, j) = occ
             /\ TurnedLooks(rs, j) = Looks(rs)
             /\ LET in == {d \in front : \A x \in 0..3 : Legal(Turn16(d[1], x))}    \* cell 0 has no image: 32 is outside
                IN TurnedDoorSet(in, j) = DoorSet(in)

RECURSIVE Grow(_, _, _)
Grow(set, edges, n) == LET more == set \cup {e[2] : e \in {x \in edges : x[1] \in set}}
                       IN IF n = 0 \/ more = set THEN set ELSE Grow(more, edges, n - 1)
=============================================================================
