-------------------------------- MODULE Vox --------------------------------
(* MagicaVoxel files: "VOX ", version, then the chunks MAIN, SIZE, XYZI and  *)
(* RGBA, each <<name, length of its content, length of its children>>.       *)
(* Numbers of 32 bits are pairs <<low 16 bits, high 16 bits>>.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT PalN                         \* 256; smaller in the exhaustive model
U(n) == <<n % 65536, n \div 65536>>
LE(u) == <<u[1] % 256, u[1] \div 256, u[2] % 256, u[2] \div 256>>
Tag(t) == CASE t = "VOX" -> <<86, 79, 88, 32>> [] t = "MAIN" -> <<77, 65, 73, 78>> [] t = "SIZE" -> <<83, 73, 90, 69>>
            [] t = "XYZI" -> <<88, 89, 90, 73>> [] t = "RGBA" -> <<82, 71, 66, 65>>
RECURSIVE Cat(_)
Cat(q) == IF Len(q) = 0 THEN <<>> ELSE IF Len(q) = 1 THEN q[1]
          ELSE LET h == Len(q) \div 2 IN Cat(SubSeq(q, 1, h)) \o Cat(SubSeq(q, h + 1, Len(q)))

(* a model: [size |-> <<u, u, u>>, vox |-> seq of <<x, y, z, c>>, pal |-> seq of <<r, g, b, a>>] *)
Encode(m) ==
    LET n == Len(m.vox) IN
    Tag("VOX") \o LE(U(150)) \o Tag("MAIN") \o LE(U(0)) \o LE(U(52 + 4 * n + 4 * PalN))
    \o Tag("SIZE") \o LE(U(12)) \o LE(U(0)) \o LE(m.size[1]) \o LE(m.size[2]) \o LE(m.size[3])
    \o Tag("XYZI") \o LE(U(4 + 4 * n)) \o LE(U(0)) \o LE(U(n)) \o Cat(m.vox)
    \o Tag("RGBA") \o LE(U(4 * PalN)) \o LE(U(0)) \o Cat(m.pal)

Has(b, at, len) == at + len - 1 <= Len(b)
U4(b, at) == <<b[at] + 256 * b[at + 1], b[at + 2] + 256 * b[at + 3]>>
Num(u) == IF u[2] >= 16384 THEN 1000000000 ELSE u[1] + 65536 * u[2]
IsTag(b, at, t) == Has(b, at, 12) /\ SubSeq(b, at, at + 3) = Tag(t)
Bad == [ok |-> FALSE]
(* what a reader must make of the bytes: a model, or Bad *)
Decode(b) ==
    IF ~(Has(b, 1, 20) /\ SubSeq(b, 1, 4) = Tag("VOX") /\ SubSeq(b, 9, 12) = Tag("MAIN")) THEN Bad ELSE
    LET s == 21 + Num(U4(b, 13)) IN           \* the content of MAIN is skipped
    IF ~(IsTag(b, s, "SIZE") /\ Has(b, s, 24)) THEN Bad ELSE
    LET v == s + 24 IN
    IF ~(IsTag(b, v, "XYZI") /\ Has(b, v, 16)) THEN Bad ELSE
    LET n == Num(U4(b, v + 12))
        p == v + 16 + 4 * n
    IN IF ~(Has(b, v + 16, 4 * n) /\ IsTag(b, p, "RGBA") /\ Has(b, p + 12, 4 * PalN)) THEN Bad ELSE
       [ok |-> TRUE,
        size |-> <<U4(b, s + 12), U4(b, s + 16), U4(b, s + 20)>>,
        vox |-> [j \in 1..n |-> <<b[v + 12 + 4 * j], b[v + 13 + 4 * j], b[v + 14 + 4 * j], b[v + 15 + 4 * j]>>],
        pal |-> [j \in 1..PalN |-> <<b[p + 8 + 4 * j], b[p + 9 + 4 * j], b[p + 10 + 4 * j], b[p + 11 + 4 * j]>>]]
(* the lengths that a well formed file announces *)
WellFormed(b) ==
    LET d == Decode(b) IN
    /\ d.ok
    /\ LET n == Len(d.vox) IN
       /\ Len(b) = 72 + 4 * n + 4 * PalN
       /\ U4(b, 5) = U(150) /\ U4(b, 13) = U(0) /\ U4(b, 17) = U(Len(b) - 20)
       /\ U4(b, 25) = U(12) /\ U4(b, 29) = U(0)
       /\ U4(b, 49) = U(4 + 4 * n) /\ U4(b, 53) = U(0)
       /\ U4(b, 65 + 4 * n) = U(4 * PalN) /\ U4(b, 69 + 4 * n) = U(0)

---------------------------------------------------------------------------
(* Export: world is a set of <<point, texture number>>; atlas the colours as *)
(* <<<<least, largest>> ...>> bytes per channel that stand for the colour    *)
Fits(p) == \A k \in 1..3 : 0 <= p[k] /\ p[k] <= 255
Exported(world) == {<<w[1][1], w[1][2], w[1][3], w[2] + 1>> : w \in {v \in world : Fits(v[1])}}
Encloses(size, vox) == \A k \in 1..3 : size[k][2] = 0 /\ size[k][1] <= 256 /\ \A q \in vox : q[k] < size[k][1]
PaletteOf(pal, atlas) ==
    \A j \in 1..PalN : /\ pal[j][4] = 255
                       /\ j <= Len(atlas) => \A k \in 1..3 : pal[j][k] \in {atlas[j][k][1], atlas[j][k][2]}
                       /\ j > Len(atlas) => pal[j] = <<0, 0, 0, 255>>

(* Import: a room drawn from a model at cell pos after k quarter turns *)
Turned(x, y, k) == CASE k % 4 = 0 -> <<x, y>> [] k % 4 = 1 -> <<7 - y, x>> [] k % 4 = 2 -> <<7 - x, 7 - y>> [] OTHER -> <<y, 7 - x>>
CellTurned(x, y, k) == CASE k % 4 = 0 -> <<x, y>> [] k % 4 = 1 -> <<-y, x>> [] k % 4 = 2 -> <<-x, -y>> [] OTHER -> <<y, -x>>
(* a room may shift its model from its western and southern side *)
Shifted(vox, add) == [j \in 1..Len(vox) |-> <<vox[j][1] + add[1], vox[j][2] + add[2], vox[j][3], vox[j][4]>>]
(* the voxel that counts at a place is the last one listed *)
Final(vox) == {j \in 1..Len(vox) : \A i \in (j + 1)..Len(vox) : vox[i][1] # vox[j][1] \/ vox[i][2] # vox[j][2] \/ vox[i][3] # vox[j][3]}
Drawn(q, pal, k, pos) ==
    LET t == Turned(q[1], q[2], k)
    IN <<t[1] + 8 * pos[1], t[2] + 8 * pos[2], q[3] + 8 * pos[3], pal[q[4] + 1][1], pal[q[4] + 1][2], pal[q[4] + 1][3]>>
CellOf(q, k, pos) == LET t == CellTurned(q[1] \div 8, q[2] \div 8, k) IN <<t[1] + pos[1], t[2] + pos[2], (q[3] \div 8) + pos[3]>>
Cells8(vox) == {<<vox[j][1] \div 8, vox[j][2] \div 8, vox[j][3] \div 8>> : j \in 1..Len(vox)}
=============================================================================
