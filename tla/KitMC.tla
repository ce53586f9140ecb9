------------------------------- MODULE KitMC ------------------------------
(* Rooms draw and carve in turn.                                            *)
EXTENDS Kit, TLC, Json
CONSTANTS Depth, Rec, Cmds, MaxDraws, PosSet
VARIABLES w, k, pos, n, hist
vars == <<w, k, pos, n, hist>>
Init == w = {} /\ k \in 0..3 /\ pos \in PosSet /\ n = 0 /\ hist = <<>>
Log(c, t, s) == hist' = IF Rec THEN Append(hist, [c |-> c, t |-> t, s |-> s]) ELSE hist
Act(c, t, s) == /\ n < MaxDraws /\ n' = n + 1 /\ UNCHANGED <<k, pos>>
                /\ w' = IF s THEN Without(w, Placed(c, k, pos)) ELSE Draw(w, Placed(c, k, pos), t)
                /\ Log(c, t, s)
Next == \E c \in Cmds, t \in {2, 5}, s \in BOOLEAN : Act(c, t, s)
Spec == Init /\ [][Next]_vars
C(nm, o, d, a) == [n |-> nm, o |-> o, d |-> d, a |-> a]
O == <<0, 0, 0>>
InCell(pts) == \A p \in pts : \A j \in 1..3 : 0 <= p[j] /\ p[j] < Cell

(* laws of the shapes and of turning them *)
ASSUME TurnLaw == \A c \in Cmds : \A p \in Shape(c) : Turn(p, 4) = p /\ \A a, b \in 0..3 : Turn(Turn(p, a), b) = Turn(p, a + b)
ASSUME KeepCell == \A a \in 0..3 : \A p \in Floor(O, Cell) : InCell({Turn(p, a)})
ASSUME Counts == /\ Cardinality(Floor(O, 5)) = 25 /\ Cardinality(Ring(O, 5)) = 16 /\ Ring(O, 1) = {O}
                 /\ Cardinality(Box(O, <<2, 3, 4>>)) = 24 /\ Cardinality(Box(O, <<-2, 3, 0>>)) = 0
                 /\ Cardinality(Dotted(O, East, 9, 2, 1)) = 6
ASSUME Walls == /\ \A f \in {East, North, West, South} :
                     /\ InCell(Wall(O, f, Cell)) /\ Cardinality(Wall(O, f, Cell)) = Cell * Cell
                /\ {Turn(p, 1) : p \in Wall(O, East, 3)} = Wall(O, North, 3)
                /\ {Turn(p, 1) : p \in Wall(O, North, 3)} = Wall(O, West, 3)
                /\ {Turn(p, 1) : p \in Wall(O, West, 3)} = Wall(O, South, 3)
ASSUME RingIsRim == Ring(O, Cell) = Wall(O, East, 1) \cup Wall(O, North, 1) \cup Wall(O, West, 1) \cup Wall(O, South, 1)

OnePerPoint == Cardinality({r[1] : r \in w}) = Cardinality(w)
(* a room that draws only inside of its own cell never leaves it *)
StayHome == (\A c \in Cmds : InCell(Shape(c))) =>
              \A r \in w : \A j \in 1..3 : Cell * pos[j] <= r[1][j] /\ r[1][j] < Cell * (pos[j] + 1)
Emit == (Rec /\ Len(hist) = Depth) => PrintT("@@G " \o ToJson([k |-> k, pos |-> pos, ops |-> hist]))

Dirs6 == {East, North, West, South, Up, Down}
MCCmds == {C("floor", O, Up, <<2, 0, 0>>), C("wall", O, North, <<3, 0, 0>>), C("cube", <<1, 2, 3>>, Up, O),
           C("column", <<7, 0, 1>>, North, <<4, 0, 0>>), C("ring", <<2, 2, 2>>, Up, <<4, 0, 0>>),
           C("rectangular_prism", <<3, 0, 1>>, Up, <<2, 5, 2>>)}
GenCmds == {C("floor", o, Up, <<a, 0, 0>>) : o \in {O, <<1, 2, 0>>, <<-8, 0, 3>>}, a \in {1, 8, 3}}
      \cup {C("ceiling", o, Up, <<a, 0, 0>>) : o \in {O, <<0, 8, 0>>}, a \in {8, 5}}
      \cup {C("wall", o, d, <<h, 0, 0>>) : o \in {O, <<8, 0, 8>>}, d \in Dirs6, h \in {8, 2}}
      \cup {C("low_wall", o, d, O) : o \in {O, <<1, 0, 2>>}, d \in {East, North, West, South}}
      \cup {C("ring", o, Up, <<a, 0, 0>>) : o \in {O, <<-2, -2, 3>>}, a \in {1, 2, 4, 12}}
      \cup {C("column", o, d, <<a, 0, 0>>) : o \in {O, <<3, 7, 1>>}, d \in Dirs6, a \in {1, 9}}
      \cup {C("dotted_column", o, d, <<10, a, b>>) : o \in {<<0, 7, 3>>}, d \in Dirs6, a \in {1, 2, 3}, b \in {1, 2}}
      \cup {C("cube", o, Up, O) : o \in {O, <<7, 0, 7>>, <<3, -4, 9>>}}
      \cup {C("rectangular_prism", o, Up, a) : o \in {O, <<2, 2, 0>>, <<-5, 3, 1>>},
                a \in {<<4, 4, 1>>, <<1, 8, 2>>, <<3, 1, 5>>, <<-2, 3, 1>>, <<2, -3, 2>>, <<0, 4, 1>>}}
GenPos == {<<0, 0, 0>>, <<3, 1, 2>>}
=============================================================================
