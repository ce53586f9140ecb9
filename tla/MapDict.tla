-------------------------------- MODULE MapDict ---------------------------
(* The dictionary form of a whole map.                                      *)
EXTENDS Ents
MetaNames == <<"worldsize", "numents", "numpvs", "lightmaps", "blendmap", "numvslots", "gamever", "revision", "gameident", "numvars">>
Sections == {"magic", "version", "headersize", "meta", "map_vars", "texmru", "entities", "world", "vslots", "chg"}
(* what names an entity must carry *)
EntNames(x) == [tn |-> TypeName(x.t), order |-> Names(x.t), w |-> IF x.t = 9 THEN WeaponName(x.attrs[1]) ELSE ""]
Faces(x) == CASE Kind(x.o) = 1 -> <<"F_EMPTY", "F_EMPTY", "F_EMPTY">> [] Kind(x.o) = 2 -> <<"F_SOLID", "F_SOLID", "F_SOLID">> [] OTHER -> x.faces

(* a texture slot: ch changed bits or -1, numbers as the bits of floats where they are floats *)
One == 1065353216
Half == 1056964608
Plain == [ch |-> -1, sc |-> One, rot |-> 0, off |-> <<0, 0>>, scr |-> <<0, 0>>, lay |-> 0, af |-> Half, ab |-> 0, col |-> <<One, One, One>>,
          pal |-> 0, pix |-> 0, co |-> One, par |-> {}]
(* all not-a-numbers are alike *)
Nan(v) == LET m == IF v < 0 THEN v + 2147483647 + 1 ELSE v IN IF m > 2139095040 THEN 2143289344 ELSE v
F(b, p) == Nan(I32(b, p))
RECURSIVE Params(_, _, _, _, _)
(* the shader parameters from p on, n of them, with palettes or not: what follows and the set of them *)
Params(b, p, n, wide, acc) ==
    IF n = 0 THEN [p |-> p, set |-> acc]
    ELSE LET nl == U16(b, p)  q == p + 2 + nl  name == Cut(b, p + 2, nl)
             x == [name |-> name, loc |-> -1, val |-> [j \in 1..4 |-> F(b, q + 4 * (j - 1))],
                   pal |-> IF wide THEN I32(b, q + 16) ELSE 0, pix |-> IF wide THEN I32(b, q + 20) ELSE 0]
         IN Params(b, q + (IF wide THEN 24 ELSE 16), n - 1, wide, {y \in acc : y.name # name} \cup {x})
(* raw: the bytes of an edited slot after its bits; the first four tell the previous slot *)
EditedSlot(c, b) ==
    LET p0 == Params(b, 6, IF Bit(c, 1) THEN U16(b, 4) % 32768 ELSE 0, U16(b, 4) > 32767, {})
        s0 == IF Bit(c, 1) THEN p0.p ELSE 4
        s1 == s0 + (IF Bit(c, 2) THEN 4 ELSE 0)
        s2 == s1 + (IF Bit(c, 4) THEN 4 ELSE 0)
        s3 == s2 + (IF Bit(c, 8) THEN 8 ELSE 0)
        s4 == s3 + (IF Bit(c, 16) THEN 8 ELSE 0)
        s5 == s4 + (IF Bit(c, 32) THEN 4 ELSE 0)
        s6 == s5 + (IF Bit(c, 64) THEN 8 ELSE 0)
        s7 == s6 + (IF Bit(c, 128) THEN 12 ELSE 0)
        s8 == s7 + (IF Bit(c, 256) THEN 8 ELSE 0)
    IN [ch |-> c, par |-> p0.set, sc |-> IF Bit(c, 2) THEN F(b, s0) ELSE One, rot |-> IF Bit(c, 4) THEN I32(b, s1) ELSE 0,
        off |-> IF Bit(c, 8) THEN <<I32(b, s2), I32(b, s2 + 4)>> ELSE <<0, 0>>, scr |-> IF Bit(c, 16) THEN <<I32(b, s3), I32(b, s3 + 4)>> ELSE <<0, 0>>,
        lay |-> IF Bit(c, 32) THEN I32(b, s4) ELSE 0, af |-> IF Bit(c, 64) THEN F(b, s5) ELSE Half, ab |-> IF Bit(c, 64) THEN F(b, s5 + 4) ELSE 0,
        col |-> IF Bit(c, 128) THEN <<F(b, s6), F(b, s6 + 4), F(b, s6 + 8)>> ELSE <<One, One, One>>,
        pal |-> IF Bit(c, 256) THEN I32(b, s7) ELSE 0, pix |-> IF Bit(c, 256) THEN I32(b, s7 + 4) ELSE 0, co |-> IF Bit(c, 512) THEN F(b, s8) ELSE One]
RECURSIVE SlotsOf(_, _)
SlotsOf(slots, n) == IF n > Len(slots) THEN <<>>
                     ELSE (IF slots[n].c < 0 THEN [j \in 1..(-slots[n].c) |-> Plain] ELSE <<EditedSlot(slots[n].c, slots[n].raw)>>) \o SlotsOf(slots, n + 1)
(* slots as exported: tab lists the different ones, ix says which one each slot is, no their numbers *)
Unset(v) == [v EXCEPT !.par = {v.par[j] : j \in 1..Len(v.par)}]
SlotsAre(want, v) == /\ Len(v.ix) = Len(want) /\ v.no = [j \in 1..Len(want) |-> j - 1]
                     /\ LET tab == [j \in 1..Len(v.tab) |-> Unset(v.tab[j])] IN \A j \in 1..Len(want) : tab[v.ix[j]] = want[j]
=============================================================================
