------------------------------ MODULE WalkTrace ----------------------------
(* Checks the recorded rooms and maps.  The recorder looks for ways; here it *)
(* is checked that they are ways, and that there are enough of them.         *)
EXTENDS Walk, TraceKit
VARIABLES s, i, st

G == [s |-> 8, w |-> 2, h |-> 4]
(* rooms with passages on two levels that are not joined                     *)
TwoLevels == {"castle_gate_simple"}
(* e.cols: columns <<x, y>>, e.runs: their runs by the name "x,y" *)
Cols(e) == TLCEval([c \in {<<q[1], q[2]>> : q \in Range(e.cols)} |-> e.runs[ToString(c[1]) \o "," \o ToString(c[2])]])
Doors(e) == {<<<<d[1], d[2], d[3]>>, <<d[4], d[5], d[6]>>>> : d \in Range(e.doors)}
Masks(e) == LET P == UNION {Nodes(e.trees[n]) : n \in 1..Len(e.trees)}
                r == [cells |-> Range(e.cells), cols |-> Cols(e)]
            IN {m \in {<<Opening(G, d, P), Layer(G, r, d)>> : d \in Doors(e)} : m[1] # {}}
Room(v, e) ==
    LET r == [cells |-> Range(e.cells), cols |-> Cols(e)]
        D == Doors(e)
        T == TLCEval([n \in 1..Len(e.trees) |-> Nodes(e.trees[n])])
        O == TLCEval([d \in D |-> UNION {Opening(G, d, T[n]) : n \in 1..Len(T)}])
    IN [C36_certificate |-> \A n \in 1..Len(T) : Tree(G, r, e.trees[n]),
        C36_drawn |-> e.ok,
        C36_open |-> \A d \in D : O[d] # {},
        C36_joined |-> \A a, b \in D : (e.name \in TwoLevels /\ a[1][3] # b[1][3])
                          \/ \E n \in 1..Len(T) : Opening(G, a, T[n]) # {} /\ Opening(G, b, T[n]) # {},
        C36_meet |-> \A d \in D : O[d] # {} => \A m \in v \cup Masks(e) : Meet(G, <<O[d], Layer(G, r, d)>>, m)]
Map(e) ==
    LET r == [cells |-> UNION {Range(x) : x \in Range(e.rooms)}, cols |-> Cols(e)]
        At == {Cell(G, p) : p \in UNION {Nodes(e.trees[n]) : n \in 1..Len(e.trees)}}
    IN [C36_certificate |-> \A n \in 1..Len(e.trees) : Tree(G, r, e.trees[n]),
        C36_drawn |-> e.ok,
        C36_starts |-> Len(e.trees) <= e.m /\ \A n \in 1..Len(e.trees) : Cell(G, Pos(e.trees[n][1])) \in UNION {Range(e.rooms[k]) : k \in 1..e.m},
        C36_reach |-> \A k \in 1..Len(e.rooms) : Range(e.rooms[k]) \cap At # {}]
Clauses(v, e) == IF e.op = "room" THEN Room(v, e) ELSE Map(e)
TInit == s \in 1..Len(Scenarios) /\ i = 0 /\ st = {}
TNext == LET sc == Scenarios[s] IN
    /\ i < Len(sc.ev) /\ i' = i + 1 /\ s' = s
    /\ LET e == sc.ev[i + 1] IN
         /\ Report(sc, i + 1, e.key, Failing(Clauses(st, e)))
         /\ st' = IF e.op = "room" THEN st \cup Masks(e) ELSE st
    /\ Done(sc, i + 1)
=============================================================================
