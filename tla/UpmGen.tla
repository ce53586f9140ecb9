------------------------------- MODULE UpmGen -----------------------------
(* Histories of calls for the real 32 cell world: a catalogue of shapes,    *)
(* tentative checks and registrations near the centre, the edges and each   *)
(* other, placement and capping in between.                                 *)
EXTENDS Upm, TLC, Json, SequencesExt
CONSTANTS Depth
VARIABLES m, occ, n, hist, pick
vars == <<m, occ, n, hist, pick>>
Sh(c, d) == [c |-> c, d |-> d]
D(t, f) == <<t, f>>
Up == <<0, 0, 1>>
Cat == << [t |-> "dot", shs |-> <<Sh({O}, {D(East, East), D(North, North), D(West, West), D(South, South)})>>],
          [t |-> "hall", shs |-> <<Sh({O}, {D(East, East), D(West, West)})>>],
          [t |-> "end", shs |-> <<Sh({O}, {D(West, West)})>>],
          [t |-> "long", shs |-> <<Sh({O, East, <<2, 0, 0>>}, {D(West, West), D(<<3, 0, 0>>, East)})>>],
          [t |-> "stair", shs |-> <<Sh({O, Up}, {D(West, West), D(<<1, 0, 1>>, East)})>>],
          [t |-> "down", shs |-> <<Sh({O, <<0, 0, -1>>}, {D(West, West), D(<<1, 0, -1>>, East)})>>],
          \* does not fill the cell at its own position
          [t |-> "corner", shs |-> <<Sh({East, North, <<1, 1, 0>>}, {D(O, West), D(<<1, 2, 0>>, North), D(<<2, 0, 0>>, East)})>>],
          [t |-> "big", shs |-> <<Sh({<<x, y, z>> : x \in -1..1, y \in -1..1, z \in 0..1},
                                 {D(<<2, 0, 0>>, East), D(<<0, 2, 1>>, North), D(<<-2, -1, 0>>, West), D(<<1, -2, 1>>, South)})>>],
          [t |-> "opt", shs |-> <<Sh({O}, {D(West, West), D(East, East)}), Sh({O, East}, {D(West, West), D(<<1, 1, 0>>, North)})>>],
          \* two cells apart, and dead ends of several cells
          [t |-> "gap", shs |-> <<Sh({O, <<2, 0, 0>>}, {D(West, West), D(<<3, 0, 0>>, East)})>>],
          [t |-> "cap2", shs |-> <<Sh({O, East}, {D(West, West)})>>],
          [t |-> "cap3", shs |-> <<Sh({O, East, <<1, 1, 0>>}, {D(West, West)})>>],
          [t |-> "cap5", shs |-> <<Sh({O, Up, <<1, -1, 0>>, East, <<2, 0, 0>>}, {D(West, West)})>>],
          \* two doors onto the same cell
          [t |-> "nook", shs |-> <<Sh({East, North, <<1, 1, 0>>}, {D(O, West), D(O, South), D(<<2, 0, 0>>, East)})>>] >>
Near == {<<x, y, z>> : x \in {15, 16, 17, 14}, y \in {15, 16, 18}, z \in {3, 4}}
Edge == {<<1, 16, 0>>, <<31, 16, 5>>, <<0, 3, 2>>, <<30, 30, 31>>, <<16, 1, 1>>, <<31, 31, 0>>, <<2, 30, 30>>, <<16, 32, 3>>, <<-1, 4, 4>>}
(* one call is chosen in small steps, which keeps the choices few *)
Init == m \in {1, 2, 4} /\ occ = {} /\ n = 0 /\ hist = <<>> /\ pick = <<>>
Op(nm, x, v, k, p, num) == [op |-> nm, x |-> x, v |-> v, k |-> k, p |-> p, n |-> num]
Add(o) == hist' = Append(hist, o) /\ n' = n + 1 /\ pick' = <<>>
RoomAt(x, v, k, p) == LET b == Built(Cat[x].shs[v], k, p) IN [c |-> b.c, d |-> b.d, k |-> k, t |-> "", f |-> ""]
Choose == /\ pick = <<>> /\ n < Depth /\ UNCHANGED <<m, occ, n, hist>>
          /\ \/ \E nm \in {"pre", "reg"} : \E x \in 1..Len(Cat) : \E v \in 1..Len(Cat[x].shs) : pick' = <<nm, x, v>>
             \/ n > 1 /\ \E x \in 1..Len(Cat) : pick' = <<"place", x, 1>>
             \/ n > 4 /\ pick' = <<"cap", 3, 1>>
Turned == /\ Len(pick) = 3 /\ pick[1] \in {"pre", "reg"} /\ UNCHANGED <<m, occ, n, hist>>
          /\ \E k \in 0..3 : pick' = Append(pick, k)
Call == /\ Len(pick) = 4 /\ UNCHANGED m
        /\ \E p \in Near \cup Edge :
             LET r == RoomAt(pick[2], pick[3], pick[4], p)
                 o == Op(pick[1], pick[2], pick[3], pick[4], p, 0) IN
             IF pick[1] = "pre" THEN Add(o) /\ UNCHANGED occ
             ELSE /\ \A j \in 1..m : \A c \in Images(r, m)[j].c : Legal(c)
                  /\ Add(o) /\ occ' = occ \cup CellsOf(Images(r, m))
Other == /\ Len(pick) = 3 /\ pick[1] \in {"place", "cap"} /\ UNCHANGED <<m, occ>>
         /\ \E num \in {0, 1, 3, 5} : \E y \in 1..Len(Cat) : Add(Op(pick[1], pick[2], y, 0, O, num))
Stop == n = Depth /\ pick = <<>> /\ pick' = <<"stop">> /\ UNCHANGED <<m, occ, n, hist>>
Next == Choose \/ Turned \/ Call \/ Other \/ Stop
Spec == Init /\ [][Next]_vars
CatJson == [x \in 1..Len(Cat) |-> [t |-> Cat[x].t, shs |-> [v \in 1..Len(Cat[x].shs) |->
              [f |-> ToString(v), c |-> SetToSeq(Cat[x].shs[v].c), d |-> SetToSeq(Cat[x].shs[v].d)]]]]
Emit == (pick = <<"stop">>) => PrintT("@@G " \o ToJson([m |-> m, cat |-> CatJson, ops |-> hist]))
=============================================================================
