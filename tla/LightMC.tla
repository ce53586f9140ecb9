------------------------------- MODULE LightMC ----------------------------
(* The colours of the specification for all settings: valid, as bright and  *)
(* as saturated as configured.                                              *)
EXTENDS Light, TLC
CONSTANTS Grid
VARIABLES b, s, h, ws, p
vars == <<b, s, h, ws, p>>
Pures == {<<255, 0, g>> : g \in {0, 1, 60, 127, 254, 255}} \cup {<<g, 255, 0>> : g \in {0, 33, 200}} \cup {<<0, g, 255>> : g \in {0, 128}} \cup {<<0, 0, 255>>}
Init == b \in {0, 1, 19, 32, 63, 64, 90} \cup {n \in 0..96 : n % Grid = 0} /\ s \in {0, 1, 31, 64} \cup {n \in 0..64 : n % Grid = 0}
        /\ h \in Pures /\ ws \in {64, 128, 256, 1024, 4096} /\ p \in {<<0, 0, 0>>, <<-3, 8, 255>>}
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
C == [j \in 1..3 |-> Shade(h[j], b, s)]
Valid == Pure(h) /\ \A j \in 1..3 : C[j] \in 0..255
Bright == Max3(C) = Value(b)
Saturated == (s = 0 => Min3(C) = Max3(C)) /\ (s = 64 => Min3(C) = 0) /\ ((b >= 64 /\ s = 64) => C = h)
Allowed == ColourOf(C, h, b, s)
(* a light in the centre of a cell is half a cell away from the one at its corner *)
Centred == LET x == At(p, TRUE, ws)  y == At(p, FALSE, ws) IN \A j \in 1..3 : x[j] - y[j] = (64 * 4 * 1024) \div ws
=============================================================================
