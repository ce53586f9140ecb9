-------------------------------- MODULE Sides ------------------------------
(* Maps for several sides: what one side gets the others get as well, turned *)
(* about the middle of the map; every room brings what its kind is for, and  *)
(* every side has the flag of its own team.  Things are entities             *)
(* <<type, x, y, z, yaw, rest>>, columns are those of Rooms.                 *)
EXTENDS Rooms, TLC
Turns(m) == CASE m = 1 -> {0} [] m = 2 -> {0, 2} [] OTHER -> {0, 1, 2, 3}
MovedThings(ts, o, q, k) == {MovedEnt(t, o, q, k) \o <<t[6]>> : t \in ts}
SameGround(cols, m, c) == \A k \in Turns(m) : MovedCols(cols, c, c, k) = cols
SameThings(ts, m, c) == \A k \in Turns(m) : MovedThings(ts, c, c, k) = ts

Debug == {"TestRoom", "TestRoom2"}
FlagRooms == {"castle_flag_room", "station_flagroom"}
SpawnRooms == {"SpawnRoom", "spawn_room"}
JumpRooms == {"JumpCorridor3", "JumpCorridorVertical", "JumpCorridorVerticalCenter", "station_tube_jumpx"}
TreatRooms == {"station_endcap"}
(* the team of a side: alpha (blue) plays north, omega (red) south, kappa    *)
(* (yellow) east and sigma (green) west                                      *)
TeamOf(k) == CASE k % 4 = 1 -> 1 [] k % 4 = 3 -> 2 [] k % 4 = 0 -> 3 [] OTHER -> 4
Red == <<255, 0, 0>>
ColourOf(t) == CASE t = 1 -> <<0, 0, 255>> [] t = 2 -> Red [] t = 3 -> <<255, 255, 0>> [] OTHER -> <<0, 255, 0>>
(* a flag room marks in red what gets the colour of the team                 *)
Worn(c, t) == IF c = Red THEN ColourOf(t) ELSE c
=============================================================================
