------------------------------- MODULE FacesGen ---------------------------
(* Random cubes: edges of special and arbitrary values.                     *)
EXTENDS Faces, TLC, Json
VARIABLES rnd, cubes
CONSTANTS Length
vars == <<rnd, cubes>>
Special == <<128, 0, 255, 136, 15, 240, 8, 1, 16>>
Cube == [k \in 1..12 |-> CASE rnd[30] % 4 = 0 -> rnd[k]
                           [] rnd[30] % 4 = 1 -> Special[(rnd[k] % 9) + 1]
                           [] rnd[30] % 4 = 2 -> IF rnd[31] % 12 = k - 1 THEN rnd[k] ELSE 128
                           [] OTHER -> 16 * (rnd[k] % 9) + (rnd[k + 12] % 9)]
Draw == Len(cubes) < Length /\ rnd = <<>> /\ rnd' = [j \in 1..32 |-> RandomElement(0..255)] /\ UNCHANGED cubes
Do == rnd # <<>> /\ Len(cubes) < Length /\ cubes' = Append(cubes, Cube) /\ rnd' = <<>>
Stop == Len(cubes) = Length /\ rnd = <<>> /\ PrintT("@@G " \o ToJson(cubes)) /\ rnd' = <<0>> /\ UNCHANGED cubes
Init == cubes = <<>> /\ rnd = <<>>
Next == Draw \/ Do \/ Stop
Spec == Init /\ [][Next]_vars
=============================================================================
