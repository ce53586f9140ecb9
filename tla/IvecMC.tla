------------------------------- MODULE IvecMC -------------------------------
(* Chains of operations on small vectors, and the laws they obey.            *)
EXTENDS Ivec, Json
CONSTANTS Coords, Nums, MaxSteps, Rec, Depth
VARIABLES v, n, hist, rnd
vars == <<v, n, hist, rnd>>
Small == Coords \X Coords \X Coords
Step(op, b, m) == /\ n < MaxSteps /\ n' = n + 1 /\ v' = Apply(op, v, b, m)
                  /\ hist' = IF Rec THEN Append(hist, [op |-> op, b |-> b, n |-> m]) ELSE hist
Init == v \in Small /\ n = 0 /\ hist = <<>> /\ rnd = <<>>
Bound(p) == \A k \in 1..3 : p[k] \in -300..300
Next == \/ \E b \in Small, op \in {"sub", "add", "cross"} : Step(op, b, 0)
        \/ \E m \in Nums : Step("mul", <<0, 0, 0>>, m)
        \/ \E m \in Nums : Step("mask", <<0, 0, 0>>, m)
        \/ \E m \in {x \in Nums : x >= 0} : m <= 4 /\ Step("shl", <<0, 0, 0>>, m)
        \/ \E k \in 0..7, m \in {1, 2} : Step("octant", <<k, 0, 0>>, m)
Spec == Init /\ [][Next /\ Bound(v') /\ rnd' = rnd]_vars
(* random histories: draw, then step                                         *)
Ops == {"sub", "add", "cross", "mul", "mask", "shl", "octant"}
GenInit == v = <<1, 2, 3>> /\ n = 0 /\ hist = <<>> /\ rnd = <<>>
Draw == /\ rnd = <<>> /\ n < MaxSteps
        /\ rnd' = <<RandomElement(Ops), <<RandomElement(Coords), RandomElement(Coords), RandomElement(Coords)>>, RandomElement(Nums), RandomElement(0..7)>> /\ UNCHANGED <<v, n, hist>>
Take == /\ rnd # <<>> /\ rnd' = <<>>
        /\ LET op == rnd[1]
               b == IF op = "octant" THEN <<rnd[4], 0, 0>> ELSE rnd[2]
               m == IF op = "shl" THEN rnd[4] ELSE IF op = "octant" THEN (2 ^ rnd[4]) ELSE rnd[3]
               r == Apply(op, v, b, m)
               (* start again from a new vector when the numbers grow too large *)
               start == n = 0 \/ ~Bound(r)
           IN IF start THEN v' = rnd[2] /\ n' = n + 1 /\ hist' = Append(hist, [op |-> "start", b |-> rnd[2], n |-> 0])
              ELSE v' = r /\ n' = n + 1 /\ hist' = Append(hist, [op |-> op, b |-> b, n |-> m])
Stop == n = MaxSteps /\ rnd = <<>> /\ UNCHANGED vars
GenSpec == GenInit /\ [][Draw \/ Take \/ Stop]_vars
CrossLaw == \A b \in Small : Bound(v) => /\ Dot(v, Cross(v, b)) = 0 /\ Dot(b, Cross(v, b)) = 0
                                         /\ Add(Cross(v, b), Cross(b, v)) = <<0, 0, 0>>
AddLaw == \A b \in Small : Sub(Add(v, b), b) = v /\ Add(v, b) = Add(b, v)
ShlLaw == \A k \in 0..3 : Shl(v, k) = Mul(v, 2 ^ k)
MaskLaw == \A k \in 0..3 : Add(Mask(v, (2 ^ k) - 1), Mask(v, -(2 ^ k))) = v /\ \A j \in 1..3 : Mask(v, (2 ^ k) - 1)[j] = v[j] % (2 ^ k)
(* the octants of a cube of side 2 are its eight unit cubes                  *)
OctantLaw == /\ {Octant(k, v, 1) : k \in 0..7} = (v[1]..(v[1] + 1)) \X (v[2]..(v[2] + 1)) \X (v[3]..(v[3] + 1))
             /\ \A k \in 0..7 : Octant(k, v, 2) = Add(v, Mul(Octant(k, <<0, 0, 0>>, 1), 2))
Emit == (Rec /\ n = Depth /\ rnd = <<>>) => PrintT("@@G " \o ToJson([ops |-> hist]))
GenCoords == {-37, -8, -3, -1, 0, 1, 2, 5, 8, 31}
GenNums == {-16, -8, -1, 0, 1, 2, 3, 4, 7, 15}
MCNums == {-2, -1, 0, 1, 3}
MCCoords == {-3, 0, 1}
MCTCoords == {-3, 0, 2}
=============================================================================
