------------------------------- MODULE VoxMC -------------------------------
(* All small models and worlds: writing then reading gives the model back,   *)
(* no proper prefix and no file with a wrong marker is accepted, and what is *)
(* exported is well formed.                                                  *)
EXTENDS Vox
CONSTANTS MaxVox, Vals, Texs
VARIABLES m, b, what, at
vars == <<m, b, what, at>>
Sizes == {<<U(1), U(2), U(256)>>, <<U(0), U(65536), U(7)>>}
Colour(c) == <<c, 255 - c, (c * 7) % 256, 255>>
Vox4 == {<<x, y, z, c>> : x \in Vals, y \in Vals, z \in {0}, c \in 0..(PalN - 1)}
Init == /\ m \in [size : Sizes, vox : UNION {[1..n -> Vox4] : n \in 0..MaxVox}, pal : {[j \in 1..PalN |-> Colour(j * 40)]}]
        /\ b = Encode(m) /\ what = "file" /\ at = 0
Cut == what = "file" /\ \E k \in 0..(Len(b) - 1) : b' = SubSeq(b, 1, k) /\ at' = k /\ what' = "cut" /\ UNCHANGED m
Flip == what = "file" /\ \E k \in 1..Len(b) : b' = [b EXCEPT ![k] = (@ + 1) % 256] /\ at' = k /\ what' = "flip" /\ UNCHANGED m
More == what = "file" /\ b' = b \o <<1, 2, 3>> /\ at' = 0 /\ what' = "more" /\ UNCHANGED m
Next == Cut \/ Flip \/ More
Spec == Init /\ [][Next]_vars
RoundTrip == what \in {"file", "more"} => LET d == Decode(b) IN d.ok /\ d.size = m.size /\ d.vox = m.vox /\ d.pal = m.pal
Formed == what = "file" => WellFormed(b)
NotFormed == what = "more" => ~WellFormed(b)
CutRejected == what = "cut" => ~Decode(b).ok
Markers == {1, 2, 3, 4, 9, 10, 11, 12, 21, 22, 23, 24, 45, 46, 47, 48} \cup {j + 60 + 4 * Len(m.vox) : j \in 1..4}
MarkerRejected == (what = "flip" /\ at \in Markers) => ~Decode(b).ok
(* a change of a length that counts voxels moves the palette: never the same model *)
FlipSeen == (what = "flip" /\ Decode(b).ok /\ at \notin (5..8 \cup 13..20 \cup 25..32 \cup 49..56 \cup {j + 64 + 4 * Len(m.vox) : j \in 1..8})) =>
               LET d == Decode(b) IN <<d.size, d.vox, d.pal>> # <<m.size, m.vox, m.pal>>
(* export *)
Pts == {<<x, y, z>> : x \in {-1, 0, 255, 256}, y \in {0, 3}, z \in {0, 300}}
Worlds == {{}} \cup {{<<p, t>>} : p \in Pts, t \in Texs} \cup {{<<p, t>>, <<q, u>>} : p \in Pts, q \in Pts, t \in Texs, u \in Texs}
ASSUME \A w \in Worlds : /\ \A q \in Exported(w) : \A k \in 1..4 : q[k] \in 0..255
                         /\ Cardinality(Exported(w)) <= Cardinality(w)
                         /\ \A v \in w : Fits(v[1]) <=> <<v[1][1], v[1][2], v[1][3], v[2] + 1>> \in Exported(w)
(* turning: four quarter turns are none, and voxels stay in their cells *)
ASSUME \A x, y \in 0..17 : \A k \in 0..3 :
          /\ LET t == Turned(x, y, k) IN \E j \in 0..3 : Turned(t[1], t[2], j) = <<x, y>>
          /\ LET t == Turned(x, y, k) c == CellTurned(x \div 8, y \div 8, k) IN t[1] \div 8 = c[1] /\ t[2] \div 8 = c[2]
=============================================================================
