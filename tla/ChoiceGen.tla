------------------------------ MODULE ChoiceGen ---------------------------
(* Offers, tables and doors to choose from.                                 *)
EXTENDS Choice, TLC, Json
CONSTANTS Length
VARIABLES rnd, ops
vars == <<rnd, ops>>
R(n) == rnd[n]
Names == <<"a", "b", "c", "d", "e", "f", "g", "h">>
W(n) == IF R(n) % 3 = 0 THEN 0 ELSE IF R(n) % 3 = 1 THEN (R(n + 1) % 6) + 1 ELSE (R(n + 1) % 20) + 1
Many(n, m) == (R(n) % m) + 1
WeightsOp == [op |-> "weights", unit |-> R(2) % 6, items |-> [j \in 1..Many(3, 8) |-> [v |-> Names[IF R(4) % 3 = 0 THEN (R(10 + j) % 8) + 1 ELSE j], w |-> W(20 + 2 * j)]]]
Table(lo) == [j \in 1..Many(3, 4) |-> [t |-> Names[j], w |-> lo + (R(20 + j) % 9)]]
Opts == [j \in 1..Many(4, 7) |-> [v |-> "r" \o Names[j], t |-> Names[(R(30 + j) % (IF R(5) % 2 = 0 THEN 4 ELSE 6)) + 1]]]
RoomOp == [op |-> "room", tab |-> Table(0), opts |-> Opts]
StreamOp == [op |-> "stream", tab |-> Table(1), opts |-> Opts, unit |-> R(2) % 6]
PlaceOp == [op |-> "place", at |-> <<R(2) % 32, R(3) % 32, R(4) % 32>>, doors |-> R(5) % 16]
DoorOp == [op |-> "door", how |-> (<<"random", "plain", "vertical", "hole", "own">>)[(R(2) % 5) + 1], ws |-> [j \in 1..7 |-> W(10 + 2 * j)]]
FlavourOp == [op |-> "flavour", cells |-> [j \in 1..6 |-> [k \in 1..3 |-> IF k > 1 /\ R(30 + j) % 3 = 0 THEN 7 ELSE R(3 * j + k) % 32]]]
FillOp == [op |-> "fill", keep |-> R(2) % 3]
OpAt == LET k == R(1) % 16 IN IF Len(ops) < 2 THEN PlaceOp ELSE IF k < 4 THEN WeightsOp ELSE IF k < 6 THEN RoomOp ELSE IF k < 8 THEN StreamOp
        ELSE IF k < 10 THEN PlaceOp ELSE IF k < 14 THEN DoorOp ELSE IF k = 14 THEN FlavourOp ELSE FillOp
Draw == Len(ops) < Length /\ rnd = <<>> /\ rnd' = [j \in 1..48 |-> RandomElement(0..255)] /\ UNCHANGED ops
Do == rnd # <<>> /\ Len(ops) < Length /\ ops' = Append(ops, OpAt) /\ rnd' = <<>>
Stop == Len(ops) = Length /\ rnd = <<>> /\ PrintT("@@G " \o ToJson(ops)) /\ rnd' = <<0>> /\ UNCHANGED ops
Init == rnd = <<>> /\ ops = <<>>
Next == Draw \/ Do \/ Stop
Spec == Init /\ [][Next]_vars
=============================================================================
