------------------------------- MODULE VoxGen ------------------------------
(* Random models as files, with something done to the file, and random       *)
(* histories of worlds.  One step draws bytes, the next uses them.           *)
EXTENDS Vox, Json
CONSTANTS Steps
VARIABLES rnd, vox, ops, n, stage
vars == <<rnd, vox, ops, n, stage>>
R(i) == rnd[((i - 1) % 96) + 1]
CoordPool == <<0, 1, 7, 8, 15, 16, 23, 254, 255, 3>>
Coord(i) == IF R(i) % 3 = 0 THEN CoordPool[(R(i + 1) % 10) + 1] ELSE R(i + 1) % 20
ColPool == <<0, 1, 2, 254, 255, 79>>
Col(i) == IF R(i) % 2 = 0 THEN ColPool[(R(i + 1) % 6) + 1] ELSE R(i + 1)
WPool == <<-1, 0, 1, 255, 256, 300, -8, 128, 254, 64>>
WCoord(i) == IF R(i) % 3 < 2 THEN WPool[(R(i + 1) % 10) + 1] ELSE R(i + 1)
Init == rnd = [j \in 1..96 |-> 0] /\ vox = <<>> /\ ops = <<>> /\ n = 0 /\ stage = "draw"
Draw == stage = "draw" /\ rnd' = [j \in 1..96 |-> RandomElement(0..255)] /\ stage' = (IF n < Steps THEN "use" ELSE "end") /\ UNCHANGED <<vox, ops, n>>
Use == /\ stage = "use" /\ stage' = "draw" /\ n' = n + 1 /\ UNCHANGED rnd
       /\ vox' = vox \o [j \in 1..(R(1) % 5) |-> <<Coord(10 * j), Coord(10 * j + 2), Coord(10 * j + 4), Col(10 * j + 6)>>]
       /\ ops' = ops \o [j \in 1..(R(2) % 5) |->
             [op |-> IF R(10 * j + 1) % 5 = 0 THEN "del" ELSE "set", p |-> <<WCoord(10 * j + 2), WCoord(10 * j + 4), WCoord(10 * j + 6)>>,
              t |-> R(10 * j + 8)]] \o (IF R(3) % 6 = 0 THEN <<[op |-> "export", p |-> <<0, 0, 0>>, t |-> 0]>> ELSE <<>>)
Model == [size |-> <<U(R(1)), U(R(2) + 256 * R(3)), <<R(4), R(5)>>>>, vox |-> vox,
          pal |-> [j \in 1..PalN |-> <<(R(j) * (2 * R(6) + 1) + j) % 256, (R(j + 31) + 7 * j) % 256, R(j + (j \div 96)), R(7)>>]]
Damage(b) ==
    LET at == IF R(9) % 2 = 0 THEN ((R(10) + 256 * R(11)) % Len(b)) + 1 ELSE (R(10) % 80) + 1
        low == {16, 20, 28, 32, 36, 40, 44, 52, 56, 60, 15, 63, 64}   \* high bytes of lengths: would ask for giant lists
    IN CASE R(8) % 5 = 0 -> b
         [] R(8) % 5 = 1 -> SubSeq(b, 1, IF R(9) % 3 = 0 THEN Len(b) - 1 - (R(10) % 8) ELSE at - 1)
         [] R(8) % 5 = 2 -> b \o <<R(10), R(11), R(12)>>
         [] OTHER -> IF at \in low THEN [b EXCEPT ![13] = 1] ELSE [b EXCEPT ![at] = IF R(13) % 2 = 0 THEN (@ + 1) % 256 ELSE R(12)]
End == /\ stage = "end" /\ stage' = "stop" /\ UNCHANGED <<rnd, vox, ops, n>>
       /\ PrintT("@@G " \o ToJson([b |-> Encode(Model), d |-> Damage(Encode(Model)), k |-> R(20) % 4, pos |-> <<(R(21) % 7) - 2, (R(22) % 7) - 2, R(23) % 5>>,
                                   ops |-> ops, natlas |-> IF R(24) % 3 = 0 THEN 255 ELSE (R(25) % 254) + 2]))
Next == Draw \/ Use \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
