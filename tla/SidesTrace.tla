----------------------------- MODULE SidesTrace ----------------------------
(* Checks what rooms bring, and that maps are the same for every side.       *)
EXTENDS Sides, TraceKit
VARIABLES s, i, st

Centre == <<16, 16, 0>>
Room(e) ==
    LET n == e.name IN
    [C35_drawn |-> e.ok,
     C35_lit |-> n \notin Debug => e.lights > 0,
     C35_flag |-> e.flags = (IF n \in FlagRooms THEN <<TeamOf(e.k)>> ELSE <<>>),
     C35_spawn |-> IF n \in SpawnRooms THEN e.spawns = 1 ELSE IF n \in TreatRooms THEN e.spawns + e.weapons = 1 ELSE e.spawns = 0,
     C35_jump |-> n \in JumpRooms => e.pushers > 0]
(* the same flag room for two teams: colours are <<r, g, b, number of voxels>> *)
Count(cs, c) == IF \E x \in Range(cs) : <<x[1], x[2], x[3]>> = c THEN (CHOOSE x \in Range(cs) : <<x[1], x[2], x[3]>> = c)[4] ELSE 0
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(SubSeq(q, 2, Len(q)))
Colours(e) ==
    LET t == TeamOf(e.k)
        all == {<<x[1], x[2], x[3]>> : x \in Range(e.plain) \cup Range(e.worn)}
        From(c) == Sum([n \in 1..Len(e.plain) |-> IF Worn(<<e.plain[n][1], e.plain[n][2], e.plain[n][3]>>, t) = c THEN e.plain[n][4] ELSE 0])
    IN [C35_colour |-> \A c \in all : Count(e.worn, c) = From(c),
        C35_marked |-> Count(e.plain, Red) > 0]
Map(e) ==
    LET cols == Range(e.cols) things == Range(e.things) flags == Range(e.flags) IN
    [C35_drawn |-> e.ok,
     C35_ground |-> SameGround(cols, e.m, Centre),
     C35_things |-> SameThings(things, e.m, Centre),
     C35_number |-> Len(e.things) = Cardinality(things),
     C35_teams |-> Len(e.flags) = (IF e.ctf THEN e.m ELSE 0) /\ Cardinality(flags) = Len(e.flags) /\ flags \subseteq 1..4]
Clauses(e) == CASE e.op = "room" -> Room(e) [] e.op = "colours" -> Colours(e) [] OTHER -> Map(e)
TInit == s \in 1..Len(Scenarios) /\ i = 0 /\ st = 0
TNext == LET sc == Scenarios[s] IN
    /\ i < Len(sc.ev) /\ i' = i + 1 /\ s' = s /\ st' = st
    /\ LET e == sc.ev[i + 1] IN Report(sc, i + 1, e.key, Failing(Clauses(e)))
    /\ Done(sc, i + 1)
=============================================================================
