-------------------------------- MODULE Land -------------------------------
(* Landscapes: a ground that covers the whole map, and what stands on it.    *)
(* A column is the sequence of its runs <<lowest layer, highest layer,       *)
(* textures>> from below.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Border(i, j, size) == i \in {0, size - 1} \/ j \in {0, size - 1}

(* the snow forest: ground of two layers, walls of ten more at the borders   *)
SnowKinds == {"11,11,11,11,11,11", "13,13,13,13,13,13"}
SnowGround(h, t) == <<<<h - 2, h - 1, t>>>>
SnowWall(h, t) == <<<<h - 2, h + 8, t>>>>
SnowHeight(col) == col[1][1] + 2
SnowColumn(i, j, size, h, t) == IF Border(i, j, size) THEN SnowWall(h, t) ELSE SnowGround(h, t)
IsSnow(col, i, j, size) == Len(col) = 1 /\ col[1][3] \in SnowKinds /\ col = SnowColumn(i, j, size, SnowHeight(col), col[1][3])

(* the town: solid ground, trees, houses in blocks of 4 x 4                  *)
Ground == "23,23,23,23,22,61"
Tree == "58,58,58,58,59,59"
House == "57,57,57,57,57,57"
TownGround(h) == <<<<0, h - 1, Ground>>>>
TownTree(top) == <<<<0, top - 1, Tree>>>>
TownHouse(h) == <<<<0, h - 1, Ground>>, <<h, h + 3, House>>>>
IsTownGround(col) == Len(col) = 1 /\ col[1][3] = Ground /\ col = TownGround(col[1][2] + 1)
IsTownTree(col, top) == col = TownTree(top)
IsTownHouse(col) == Len(col) = 2 /\ col = TownHouse(col[1][2] + 1)
IsTown(col, top) == IsTownGround(col) \/ IsTownTree(col, top) \/ IsTownHouse(col)

(* no gap between the grounds of neighbours: nobody falls out of the world   *)
Closed(h, g) == Abs(h - g) <= 2

(* what stands on the ground, in quarters of a voxel                         *)
StandsOn(e, h) ==
    CASE e.kind = "spawn" -> e.z = 4 * h
      [] e.kind = "tree" -> e.z = 4 * h
      [] e.kind = "rock" -> e.z \in (4 * h - 5)..(4 * h)
      [] OTHER -> FALSE
=============================================================================
