------------------------------- MODULE UpmMC ------------------------------
(* The placement algorithm on a small world: start rooms, attach, give up,  *)
(* cap.  Rooms are placed with all mirror images.                           *)
EXTENDS Upm, TLC, Json, Bags
CONSTANTS Mirrors, Kinds, Caps, Starts, Want
VARIABLES m, rooms, occ, front, gone, links, phase, sym
vars == <<m, rooms, occ, front, gone, links, phase, sym>>
Sh(c, d) == [c |-> c, d |-> d]
D(t, f) == <<t, f>>
Dot == Sh({O}, {D(East, East), D(North, North), D(West, West), D(South, South)})
Hall == Sh({O}, {D(East, East), D(West, West)})
End == Sh({O}, {D(West, West)})
Long == Sh({O, East}, {D(West, West), D(<<2, 0, 0>>, East)})
Stair == Sh({O, <<0, 0, 1>>}, {D(West, West), D(<<1, 0, 1>>, East)})
Corner == Sh({O, East, North}, {D(West, West), D(<<0, 2, 0>>, North), D(<<2, 0, 0>>, East)})
Room(sh, t, k) == [c |-> sh.c, d |-> sh.d, t |-> t, f |-> "", k |-> k]

Init == /\ m \in Mirrors /\ rooms = <<>> /\ occ = {} /\ front = {} /\ gone = {} /\ links = <<>> /\ phase = "start" /\ sym = TRUE
Register(rs) == /\ rooms' = rooms \o rs
                /\ occ' = occ \cup CellsOf(rs)
                /\ front' = Open(front, Len(rooms), rs, occ')
Start == /\ phase = "start" /\ phase' = "place"
         /\ \E st \in Starts : LET b == Built(st.sh, st.k, st.p) r == Room(b, "start", st.k) IN
               /\ Fits(occ, r, m) /\ Register(Images(r, m))
         /\ UNCHANGED <<m, gone, links, sym>>
(* the host's images are the rooms after it, in the order of the turns *)
Place == /\ phase = "place" /\ Len(rooms) < Want
         /\ \E door \in front, kd \in Kinds, k \in 0..3 : \E sh \in kd.shs : \E a \in Attached(sh, k, door) :
               /\ Fits(occ, a, m)
               /\ LET rs == Images(Room(a, kd.t, k), m)
                      host == CHOOSE c \in rooms[door[2]].c : TRUE
                      own == CHOOSE c \in a.c : TRUE
                  IN /\ Register(rs)
                     /\ links' = links \o [n \in 1..Len(rs) |-> <<Turn16(host, MirrorTurns(m)[n]), Turn16(own, MirrorTurns(m)[n])>>]
         /\ UNCHANGED <<m, gone, phase, sym>>
GiveUp == /\ phase = "place" /\ Len(rooms) < Want
          /\ \E door \in front : /\ ~MustAttach(occ, {kd.shs : kd \in Kinds}, door, m)
                                 /\ front' = front \ {door} /\ gone' = gone \cup {door}
          /\ UNCHANGED <<m, rooms, occ, links, phase, sym>>
Done == phase = "place" /\ (Len(rooms) >= Want \/ front = {})
ToCap == Done /\ phase' = "cap" /\ UNCHANGED <<m, rooms, occ, front, gone, links, sym>>
Cap == /\ phase = "cap"
       /\ \E door \in front, sh \in Caps, k \in 0..3 : \E a \in Attached(sh, k, door) :
             /\ \A c \in a.c : Legal(c) /\ c \notin occ
             /\ Register(<<Room(a, "cap", k)>>)
       /\ sym' = FALSE /\ UNCHANGED <<m, gone, links, phase>>
Stuck == /\ phase = "cap" /\ \A door \in front, sh \in Caps, k \in 0..3 : ~CanCap(occ, sh, k, door)
         /\ phase' = "end" /\ UNCHANGED <<m, rooms, occ, front, gone, links, sym>>
Next == Start \/ Place \/ GiveUp \/ ToCap \/ Cap \/ Stuck
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NoOverlap == ~Overlap(rooms)
RegisterOK == occ = CellsOf(rooms)
Inside == \A c \in occ : Legal(c)
DoorsInside == phase # "cap" /\ phase # "end" => \A n \in 1..Len(rooms) : \A d \in rooms[n].d : Legal(d[1])
FrontOK == front = {d \in NewDoors(0, rooms) : Legal(d[1]) /\ d[1] \notin occ} \ gone
SymOK == sym => Symmetric(rooms, occ, front \cup {d \in gone : d[1] \notin occ}, m)
(* every room is reachable from the start rooms over doors that face each other *)
Reachable == LET n == Len(rooms)
                 edges == {e \in (1..n) \X (1..n) : Joined(rooms[e[1]], rooms[e[2]])}
             IN n > 0 => Grow(1..Len(MirrorTurns(m)), edges, n) = 1..n
LinksOK == \A l \in 1..Len(links) : /\ links[l][1] \in occ /\ links[l][2] \in occ
                                    /\ \E a, b \in 1..Len(rooms) : /\ links[l][1] \in rooms[a].c /\ links[l][2] \in rooms[b].c
                                                                   /\ Joined(rooms[a], rooms[b])
CountOK == Len(rooms) <= Want + m - 1 + Cardinality({n \in 1..Len(rooms) : rooms[n].t = "cap"})
Closed == phase = "end" => \A door \in front : \A sh \in Caps : \A k \in 0..3 : ~CanCap(occ, sh, k, door)
(* a given up door can never be used later: nothing is ever removed *)
GoneStay == \A door \in gone : door[1] \in occ \/ ~MustAttach(occ, {kd.shs : kd \in Kinds}, door, m)
Ends == <>(phase = "end")

K(t, shs) == [t |-> t, shs |-> shs]
QKinds == {K("hall", {Hall}), K("stair", {Stair}), K("opt", {End, Dot})}
TKinds == {K("hall", {Hall}), K("stair", {Stair}), K("corner", {Corner}), K("opt", {End, Long})}
QStarts == {[sh |-> Hall, k |-> 0, p |-> <<2, 1, 0>>], [sh |-> Long, k |-> 1, p |-> <<1, 1, 1>>]}
QCaps == {Sh({O, <<0, 0, 1>>}, {D(West, West)})}
=============================================================================
