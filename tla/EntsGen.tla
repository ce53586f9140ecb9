-------------------------------- MODULE EntsGen ---------------------------
(* Histories of entities to play on the code.                               *)
EXTENDS Ents, TLC, Json
CONSTANTS Length
VARIABLES ops, rnd, q
vars == <<ops, rnd, q>>
R(n) == rnd[n]
S(n) == IF R(n) % 3 = 0 THEN (<<0, 1, -1, 64, -64, 4096>>)[(R(n + 1) % 6) + 1] ELSE (R(n) + 256 * (R(n + 1) % 32)) - 4096
Coord(n, pk) == IF pk = "coarse" THEN 32 * ((R(n) % 130) - 33) ELSE IF R(n) % 2 = 0 THEN 64 * (R(n + 1) - 20) ELSE S(n)
Pos(n, pk) == <<Coord(n, pk), Coord(n + 2, pk), Coord(n + 4, pk)>>
V32(n) == IF R(n) % 4 = 0 THEN (<<0, 1, -1, 65536, 200000000, -300>>)[(R(n + 1) % 6) + 1]
          ELSE (R(n + 1) + 256 * (R(n + 2) % 8)) - 300
V4(n) == IF R(n) % 7 = 0 THEN V32(n + 1) ELSE 4 * V32(n + 1)
WeaponNo(n) == (<<0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11>>)[(R(n) % 11) + 1]
Value(t, j, n) == IF t = 9 /\ j = 1 THEN 4 * WeaponNo(n) ELSE V4(n)
Lists(n) == IF R(n) % 2 = 0 THEN <<>> ELSE <<[j \in 1..(R(n + 1) % 4) |-> V32(n + 1 + 3 * j)]>>
Bytes3(n) == IF R(n) % 2 = 0 THEN <<>> ELSE <<<<R(n + 1), R(n + 2), R(n + 3)>>>>
NewOp == LET kind == KindNames[(R(2) % 9) + 1]
             pk == IF kind \in {"PlayerSpawn", "Sunlight"} /\ R(3) % 3 = 0 THEN "none" ELSE IF R(3) % 3 = 1 THEN "coarse" ELSE "fine"
             first == IF FixedFirst(kind) THEN 2 ELSE 1
             t == TypeOf(kind)
             g == [j \in 1..(R(10) % 5) |-> LET a == first + (R(10 + j) % (EntAttrs(t) + 1 - first)) IN <<a, Value(t, a, 15 + 5 * j)>>]
         IN [op |-> "new", kind |-> kind, pk |-> pk, p |-> Pos(4, pk), g |-> g, l |-> Lists(50), r |-> Bytes3(70), t |-> t, a |-> <<>>]
AnyOp == LET t == IF R(2) % 10 = 0 THEN R(3) % 20 ELSE (<<1, 2, 3, 8, 9, 13, 14>>)[(R(2) % 7) + 1]
             n == IF R(10) % 12 = 0 THEN R(11) % 15 ELSE IF t \in EntTypes THEN EntAttrs(t) ELSE 3
             pk == IF R(12) % 2 = 0 THEN "coarse" ELSE "fine"
         IN [op |-> IF R(90) % 3 = 0 THEN "pair" ELSE "new", kind |-> "Entity", pk |-> pk, p |-> Pos(4, pk), g |-> <<>>, l |-> Lists(50), r |-> Bytes3(70), t |-> t,
             a |-> [j \in 1..n |-> IF t = 9 /\ j = 1 THEN 4 * (IF R(13) % 15 = 0 THEN R(14) % 20 ELSE WeaponNo(15)) ELSE V4(15 + 2 * j)]]
N == Len(q.ents)
E1 == (R(2) % N) + 1
OpAt == CASE R(1) % 16 \in 0..4 -> NewOp [] R(1) % 16 \in 5..6 -> AnyOp
        [] R(1) % 16 = 7 -> LET j == (R(3) % Len(q.ents[E1].a)) + 1 IN [op |-> "attr", n |-> E1, j |-> j, v |-> Value(q.ents[E1].t, j, 4)]
        [] R(1) % 16 = 8 -> [op |-> "link", n |-> E1, v |-> V32(4)]
        [] R(1) % 16 = 9 -> [op |-> "res", n |-> E1, j |-> (R(3) % 3) + 1, v |-> R(4)]
        [] R(1) % 16 = 10 -> [op |-> "move", n |-> E1, p |-> Pos(4, "fine")]
        [] R(1) % 16 \in 11..12 -> [op |-> "snap", n |-> E1]
        [] R(1) % 16 = 13 -> IF q.snap = <<>> THEN [op |-> "snap", n |-> E1] ELSE [op |-> "rebuild", n |-> (R(3) % Len(q.snap)) + 1]
        [] R(1) % 16 = 14 -> [op |-> "save"]
        [] R(1) % 16 = 15 -> IF q.has THEN [op |-> "load"] ELSE [op |-> "save"]
Draw == Len(ops) < Length /\ rnd = <<>> /\ rnd' = [j \in 1..96 |-> RandomElement(0..255)] /\ UNCHANGED <<ops, q>>
Do == rnd # <<>> /\ Len(ops) < Length
      /\ LET x == IF N = 0 THEN NewOp ELSE OpAt IN ops' = Append(ops, x) /\ q' = Step(q, x)
      /\ rnd' = <<>>
Stop == Len(ops) = Length /\ rnd = <<>> /\ PrintT("@@G " \o ToJson([ops |-> ops, base |-> EncAll(Base)])) /\ rnd' = <<0>> /\ UNCHANGED <<ops, q>>
Init == ops = <<>> /\ rnd = <<>> /\ q = Start0
Next == Draw \/ Do \/ Stop
Spec == Init /\ [][Next]_vars
=============================================================================
