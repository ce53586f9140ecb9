------------------------------- MODULE LightGen ---------------------------
(* Histories of light managers to play on the code.                         *)
EXTENDS Light, TLC, Json
CONSTANTS Length
VARIABLES ops, rnd, q
vars == <<ops, rnd, q>>
R(n) == rnd[n]
B64(n) == IF R(n) % 2 = 0 THEN (<<64, 19, 0, 128, 1>>)[(R(n + 1) % 5) + 1] ELSE R(n + 1) % 80
S64(n) == IF R(n) % 2 = 0 THEN (<<64, 0, 32, 1>>)[(R(n + 1) % 4) + 1] ELSE R(n + 1) % 65
Coord(n) == IF R(n) % 3 = 0 THEN 16 * (R(n + 1) % 40) - 32 ELSE IF R(n) % 3 = 1 THEN 2 * R(n + 1) - 20 ELSE R(n + 1) + 256 * (R(n + 2) % 3)
Man == [op |-> "manager", cls |-> IF R(2) % 4 = 0 THEN "plain" ELSE "position", b |-> B64(3), s |-> S64(5),
        ws |-> (<<128, 256, 64, 512, 1024>>)[(R(7) % 5) + 1], dflt |-> (R(8) % 4)]
LightOp == LET earlier == SelectSeq(ops, LAMBDA x : x.op = "light") IN
    [op |-> "light", n |-> (R(2) % Len(q.mans)) + 1,
     p |-> IF R(3) % 3 = 0 /\ earlier # <<>> THEN earlier[(R(4) % Len(earlier)) + 1].p ELSE <<Coord(5), Coord(8), Coord(11)>>,
     over |-> IF R(14) % 4 = 0 THEN <<IF R(15) % 5 = 0 THEN <<0, 0, 0>> ELSE <<R(16), R(17), R(18)>>>> ELSE <<>>,
     centre |-> R(19) % 3 # 0, f |-> (<<4, 4, 6, 8, 12, 1, 2>>)[(R(20) % 7) + 1], coarse |-> R(21) % 2 = 0]
M1 == (R(2) % Len(q.mans)) + 1
OpAt == IF q.mans = <<>> \/ R(1) % 10 = 0 THEN Man
        ELSE IF R(1) % 10 = 1 THEN [op |-> "bright", n |-> M1, v |-> B64(3)] ELSE IF R(1) % 10 = 2 THEN [op |-> "saturate", n |-> M1, v |-> S64(3)]
        ELSE LightOp
Draw == Len(ops) < Length /\ rnd = <<>> /\ rnd' = [j \in 1..24 |-> RandomElement(0..255)] /\ UNCHANGED <<ops, q>>
Do == rnd # <<>> /\ Len(ops) < Length
      /\ LET x == OpAt IN ops' = Append(ops, x) /\ q' = Step(q, x, <<0, 0, 0>>)
      /\ rnd' = <<>>
Stop == Len(ops) = Length /\ rnd = <<>> /\ PrintT("@@G " \o ToJson(ops)) /\ rnd' = <<0>> /\ UNCHANGED <<ops, q>>
Init == ops = <<>> /\ rnd = <<>> /\ q = Start0
Next == Draw \/ Do \/ Stop
Spec == Init /\ [][Next]_vars
=============================================================================
