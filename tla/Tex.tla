-------------------------------- MODULE Tex --------------------------------
(* Texture numbering and the configuration file.                             *)
(*                                                                           *)
(* A manager owns an atlas: the sequence of the textures requested so far,   *)
(* numbered from 0.  Textures are named by keys: "n:<name>" for the textures *)
(* of a catalog, "c:<r>,<g>,<b>" for plain colours.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Elems(q) == {q[j] : j \in 1..Len(q)}
NewAtlas == <<"n:sky", "n:default">>
Ask(atlas, key) == IF key \in Elems(atlas) THEN atlas ELSE Append(atlas, key)
Number(atlas, key) == (CHOOSE j \in 1..Len(atlas) : atlas[j] = key) - 1
Injective(atlas) == Cardinality(Elems(atlas)) = Len(atlas)
IsPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

(* the colours that the colour managers use for the parts of a room *)
PlainColour(cat) ==
    CASE cat = "generic" -> "c:0.0,0.0,0.0"
      [] cat = "column" -> "c:0.5,0.5,0.5"
      [] cat = "floor" -> "c:0.1,0.1,0.1"
      [] cat = "wall" -> "c:0.9,0.9,0.9"
      [] cat = "accent" -> "c:1.0,0.0,0.0"
      [] OTHER -> "c:0.0,0.0,1.0"

(* fully saturated colours in 32nds: hue k*4/256 of the circle, k in 0..64 *)
Hue(k) ==
    LET h == 3 * k
        f == h % 32
        s == (h \div 32) % 6
    IN CASE s = 0 -> <<32, f, 0>>
         [] s = 1 -> <<32 - f, 32, 0>>
         [] s = 2 -> <<0, 32, f>>
         [] s = 3 -> <<0, 32 - f, 32>>
         [] s = 4 -> <<f, 0, 32>>
         [] OTHER -> <<32, 0, 32 - f>>
Hues == {Hue(k) : k \in 0..64}

(* world flavours: lines that the configuration file ends with *)
Flavour(f) ==
    CASE f = "space_station" -> <<"gravity 0", "impulselimit 120", "aircoast 250", "impulsestyle 3",
                                  "impulseregen 1000", "impulsecount 10">>
      [] f = "maliwan" -> <<"shotgunrays1 40", "shotgunspread1 25", "shotgunammoadd 8", "shotgunammosub1 4",
                            "shotguncolor 16711680", "shotgunexplcol1 16724787", "shotgunexplode1 500">>
      [] f = "crushed_blacks" -> <<"ambient 0">>
      [] OTHER -> <<>>
FlavourNames == {"space_station", "maliwan", "crushed_blacks"}
RECURSIVE Flavours(_)
Flavours(fs) == IF fs = <<>> THEN <<>> ELSE Flavour(fs[1]) \o Flavours(SubSeq(fs, 2, Len(fs)))

(* the file: one block per texture number, then the lines of the flavours *)
Config(atlas, extra) == [j \in 1..Len(atlas) |-> <<j - 1, atlas[j]>>] \o [j \in 1..Len(extra) |-> <<-1, extra[j]>>]

---------------------------------------------------------------------------
(* The text of a configuration file, as a sequence of lines                  *)
(*   [h |-> first word, w |-> the other words, i |-> number after "//",      *)
(*    num |-> are the other words numbers?, t |-> the whole line]            *)
TexHeads == {"setshader", "setshaderparam", "texture", "texcolor"}
(* Files(t) : which picture is used for diffuse, normal, spec, depth, glow *)
Shaders(chs) ==
    CASE chs = {"c"} -> {"stdworld"}
      [] chs = {"c", "n", "s"} -> {"bumpspecmapworld", "bumpspecmapparallaxworld"}
      [] chs = {"c", "n", "s", "z"} -> {"bumpspecmapparallaxworld"}
      [] chs = {"c", "n", "s", "g"} \/ chs = {"c", "n", "s", "z", "g"} -> {"bumpspecmapparallaxglowworld"}
      [] OTHER -> {}

Starts(ls) == {j \in 1..Len(ls) : ls[j].h = "setshader"}
RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN <<>>
              ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Ordered(S \ {m})
TexPart(ls) == {j \in 1..Len(ls) : ls[j].h \in TexHeads}
LastTex(ls) == IF TexPart(ls) = {} THEN 0 ELSE CHOOSE m \in TexPart(ls) : \A j \in TexPart(ls) : j <= m
Tail0(ls) == [j \in 1..(Len(ls) - LastTex(ls)) |-> ls[j + LastTex(ls)].t]
Blocks(ls) ==
    LET P == Ordered(Starts(ls))
    IN [b \in 1..Len(P) |-> SubSeq(ls, P[b], IF b = Len(P) THEN LastTex(ls) ELSE P[b + 1] - 1)]

(* t: what is known of the texture: [k, ch |-> <<<<channel, picture>>..>>,     *)
(*    par |-> <<<<name, a, b, c, d>>..>>, col |-> <<r, g, b>> or <<>>]           *)
Diffuse(b) == {j \in 1..Len(b) : b[j].h = "texture" /\ b[j].w[1] = "c"}
BlockShape(b) ==
    /\ b[1].h = "setshader" /\ Len(b[1].w) = 1
    /\ Cardinality(Diffuse(b)) = 1
    /\ \A j \in 2..Len(b) :
        LET d == CHOOSE m \in Diffuse(b) : TRUE IN
        CASE b[j].h = "setshaderparam" -> j < d /\ Len(b[j].w) = 5 /\ b[j].num
          [] b[j].h = "texture" -> IF j = d THEN Len(b[j].w) = 6 /\ b[j].num ELSE j > d /\ Len(b[j].w) = 2
          [] b[j].h = "texcolor" -> j > d /\ Len(b[j].w) = 3 /\ b[j].num
          [] OTHER -> FALSE
BlockIs(b, t, number) ==
    LET d == CHOOSE m \in Diffuse(b) : TRUE
        texs == {j \in 1..Len(b) : b[j].h = "texture"}
        cols == {j \in 1..Len(b) : b[j].h = "texcolor"}
        pars == {j \in 1..Len(b) : b[j].h = "setshaderparam"}
    IN /\ b[d].i = number
       /\ b[d].w[3] = "f:0.0" /\ b[d].w[4] = "f:0.0" /\ b[d].w[5] = "f:0.0"
       /\ b[d].pos /\ (t.sc # "" => b[d].w[6] = t.sc)
       /\ b[1].w[1] \in Shaders({c[1] : c \in Elems(t.ch)})
       /\ {<<b[j].w[1], b[j].w[2]>> : j \in texs} = Elems(t.ch) /\ Cardinality(texs) = Len(t.ch)
       /\ {b[j].w : j \in cols} = (IF t.col = <<>> THEN {} ELSE {t.col}) /\ Cardinality(cols) <= 1
       /\ Elems(t.par) \subseteq {b[j].w : j \in pars}
       /\ Cardinality({b[j].w[1] : j \in pars}) = Cardinality(pars)
=============================================================================
