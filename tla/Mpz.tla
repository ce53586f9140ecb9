--------------------------------- MODULE Mpz ------------------------------
(* The .mpz format: a file is a head, map variables, recent textures,       *)
(* entities, texture slot records and the nodes of the octree, in preorder. *)
(* Bytes are 0..255, int fields are 32 bit little endian, floats are given  *)
(* by their bit pattern.                                                    *)
EXTENDS Integers, Sequences, FiniteSets
Byte == 0..255
B(v) == <<v % 256, (v \div 256) % 256, (v \div 65536) % 256, (v \div 16777216) % 256>>
H(v) == IF v \in 0..65535 THEN <<v % 256, v \div 256>> ELSE <<-1, -1>>
RECURSIVE Cat(_, _, _)
Cat(Op(_), l, n) == IF n > Len(l) THEN <<>> ELSE Op(l[n]) \o Cat(Op, l, n + 1)
Bs(l) == Cat(B, l, 1)
Hs(l) == Cat(H, l, 1)
Bit(v, n) == (v \div n) % 2 = 1

(* meta: worldsize numents numpvs lightmaps blendmap numvslots gamever revision *)
EncHead(x) == x.magic \o B(x.ver) \o B(x.hs) \o Bs(x.meta) \o x.gi \o <<0>> \o B(x.nv)
EncVar(x) == B(Len(x.name)) \o x.name \o <<0>> \o B(x.t) \o (IF x.t = 2 THEN B(Len(x.s)) \o x.s \o <<0>> ELSE B(x.i))
EncMru(x) == H(Len(x.l)) \o Hs(x.l)
EncEnt(x) == Bs(x.o) \o <<x.t>> \o x.res \o B(Len(x.attrs)) \o Bs(x.attrs) \o B(Len(x.links)) \o Bs(x.links)
EncSlot(x) == B(x.c) \o x.raw
(* node: o octsav, e edges, tex, mat, mer merged, sm surfmask, tv totalverts, sf surfaces by side, n children *)
Kind(o) == o % 8
RECURSIVE Sides(_, _)
Sides(x, n) == IF n > 6 THEN <<>>
               ELSE (IF Bit(x.sm, 2 ^ (n - 1)) THEN x.sf[n] ELSE <<>>) \o Sides(x, n + 1)
EncNode(x) ==
    IF Kind(x.o) = 0 THEN <<x.o>>
    ELSE <<x.o>> \o (IF Kind(x.o) = 3 THEN x.e ELSE <<>>) \o Hs(x.tex)
         \o (IF Bit(x.o, 64) THEN H(x.mat) ELSE <<>>)
         \o (IF Bit(x.o, 128) THEN <<x.mer>> ELSE <<>>)
         \o (IF Bit(x.o, 32) THEN <<x.sm, x.tv>> \o Sides(x, 1) ELSE <<>>)
Enc(x) == CASE x.k = "head" -> EncHead(x) [] x.k = "var" -> EncVar(x) [] x.k = "mru" -> EncMru(x)
            [] x.k = "ent" -> EncEnt(x) [] x.k = "slot" -> EncSlot(x) [] x.k = "node" -> EncNode(x)
EncAll(items) == Cat(Enc, items, 1)

(* which tags are known *)
Magics == {<<77, 65, 80, 90>>, <<66, 70, 71, 90>>}            \* MAPZ, BFGZ
VarTypes == 0..2
EntAttrs(t) == CASE t = 1 -> 6 [] t = 2 -> 13 [] t = 3 -> 6 [] t = 8 -> 8 [] t = 9 -> 5 [] t = 13 -> 6 [] t = 14 -> 6 [] OTHER -> -1
EntTypes == {1, 2, 3, 8, 9, 13, 14}
Weapons == {0} \cup 2..11
NodeKinds == 0..4
HasChildren(o) == Kind(o) \in {0, 4}
Surface(f) == Len(f) = 4 /\ f[4] % 16 = 0          \* without vertices
KnownItem(x) ==
    CASE x.k = "head" -> x.magic \in Magics
      [] x.k = "var" -> x.t \in VarTypes
      [] x.k = "mru" -> TRUE
      [] x.k = "ent" -> x.t \in EntTypes /\ Len(x.attrs) = EntAttrs(x.t) /\ (x.t = 9 => x.attrs[1] \in Weapons)
      [] x.k = "slot" -> x.c < 0
      [] x.k = "node" -> /\ Kind(x.o) \in NodeKinds
                         /\ (Kind(x.o) # 0 /\ Bit(x.o, 32)) => \A n \in 1..6 : Bit(x.sm, 2 ^ (n - 1)) => Surface(x.sf[n])

(* where in the file we are: phase, how many more of the phase are to come, counts *)
RECURSIVE Settle(_)
Settle(st) == IF st.left > 0 \/ st.ph \in {"head", "mru", "end"} THEN st
              ELSE CASE st.ph = "var" -> [st EXCEPT !.ph = "mru", !.left = 1]
                     [] st.ph = "ent" -> Settle([st EXCEPT !.ph = "slot", !.left = st.ns])
                     [] st.ph = "slot" -> [st EXCEPT !.ph = "node", !.left = 8]
                     [] st.ph = "node" -> [st EXCEPT !.ph = "end"]
Start == [ph |-> "head", left |-> 1, ne |-> 0, ns |-> 0, pos |-> 0]
Follow(st, x, n) ==                            \* item x, n bytes long, has been taken
    LET s == [st EXCEPT !.pos = @ + n] IN
    CASE x.k = "head" -> Settle([s EXCEPT !.ph = "var", !.left = x.nv, !.ne = x.meta[2], !.ns = x.meta[6]])
      [] x.k = "var" -> Settle([s EXCEPT !.left = @ - 1])
      [] x.k = "mru" -> Settle([s EXCEPT !.ph = "ent", !.left = s.ne])
      [] x.k = "ent" -> Settle([s EXCEPT !.left = @ - 1])
      [] x.k = "slot" -> Settle([s EXCEPT !.left = @ + (IF x.c < 0 THEN x.c ELSE -1)])
      [] x.k = "node" -> Settle([s EXCEPT !.left = @ - 1 + (IF HasChildren(x.o) THEN 8 ELSE 0)])

(* decoding: bytes -> item *)
At(b, p) == IF p < Len(b) THEN b[p + 1] ELSE 0
I32(b, p) == At(b, p) + 256 * At(b, p + 1) + 65536 * At(b, p + 2)
             + 16777216 * (IF At(b, p + 3) > 127 THEN At(b, p + 3) - 256 ELSE At(b, p + 3))
U16(b, p) == At(b, p) + 256 * At(b, p + 1)
Cut(b, p, n) == [j \in 1..n |-> At(b, p + j - 1)]
Is(b, p, n) == [j \in 1..n |-> I32(b, p + 4 * (j - 1))]
Us(b, p, n) == [j \in 1..n |-> U16(b, p + 2 * (j - 1))]
(* a length that is negative or goes beyond the file *)
Wrong(b, n) == n < 0 \/ n > Len(b)
Broken(b) == [n |-> Len(b) + 1, x |-> [k |-> "none"]]
DecHead(b, p) == [n |-> 52, x |-> [k |-> "head", magic |-> Cut(b, p, 4), ver |-> I32(b, p + 4), hs |-> I32(b, p + 8),
                                   meta |-> Is(b, p + 12, 8), gi |-> Cut(b, p + 44, 3), nv |-> I32(b, p + 48)]]
DecVar(b, p) ==
    LET nl == I32(b, p)  q == p + 5 + nl  t == I32(b, q)  sl == I32(b, q + 4)
    IN IF Wrong(b, nl) THEN Broken(b)
       ELSE IF t = 2 /\ Wrong(b, sl) THEN Broken(b)
       ELSE IF t = 2 THEN [n |-> 14 + nl + sl, x |-> [k |-> "var", name |-> Cut(b, p + 4, nl), t |-> t, i |-> 0, s |-> Cut(b, q + 8, sl)]]
       ELSE [n |-> 13 + nl, x |-> [k |-> "var", name |-> Cut(b, p + 4, nl), t |-> t, i |-> I32(b, q + 4), s |-> <<>>]]
DecMru(b, p) == [n |-> 2 + 2 * U16(b, p), x |-> [k |-> "mru", l |-> Us(b, p + 2, U16(b, p))]]
DecEnt(b, p) ==
    LET na == I32(b, p + 16)  q == p + 20 + 4 * na  nl == I32(b, q)
    IN IF Wrong(b, na) THEN Broken(b) ELSE IF Wrong(b, nl) THEN Broken(b) ELSE
       [n |-> 24 + 4 * na + 4 * nl, x |-> [k |-> "ent", o |-> Is(b, p, 3), t |-> At(b, p + 12), res |-> Cut(b, p + 13, 3),
                                            attrs |-> Is(b, p + 20, na), links |-> Is(b, q + 4, nl)]]
DecSlot(b, p) == [n |-> 4, x |-> [k |-> "slot", c |-> I32(b, p), raw |-> <<>>]]
RECURSIVE Count(_, _)
Count(sm, n) == IF n > 6 THEN 0 ELSE (IF Bit(sm, 2 ^ (n - 1)) THEN 1 ELSE 0) + Count(sm, n + 1)
DecNode(b, p) ==
    LET o == At(b, p)
        none == [k |-> "node", o |-> o, e |-> <<>>, tex |-> <<>>, mat |-> -1, mer |-> -1, sm |-> -1, tv |-> -1, sf |-> <<>>, n |-> IF HasChildren(o) THEN 8 ELSE 0]
        pe == p + 1
        pt == pe + (IF Kind(o) = 3 THEN 12 ELSE 0)
        pm == pt + 12
        pr == pm + (IF Bit(o, 64) THEN 2 ELSE 0)
        ps == pr + (IF Bit(o, 128) THEN 1 ELSE 0)
        sm == At(b, ps)
        before(j) == Cardinality({h \in 1..(j - 1) : Bit(sm, 2 ^ (h - 1))})
        len == IF Bit(o, 32) THEN ps + 2 + 4 * Count(sm, 1) - p ELSE ps - p
    IN IF Kind(o) = 0 THEN [n |-> 1, x |-> none]
       ELSE [n |-> len,
             x |-> [none EXCEPT !.e = IF Kind(o) = 3 THEN Cut(b, pe, 12) ELSE <<>>, !.tex = Us(b, pt, 6),
                                !.mat = IF Bit(o, 64) THEN U16(b, pm) ELSE -1,
                                !.mer = IF Bit(o, 128) THEN At(b, pr) ELSE -1,
                                !.sm = IF Bit(o, 32) THEN sm ELSE -1,
                                !.tv = IF Bit(o, 32) THEN At(b, ps + 1) ELSE -1,
                                !.sf = IF Bit(o, 32) THEN [j \in 1..6 |-> IF Bit(sm, 2 ^ (j - 1)) THEN Cut(b, ps + 2 + 4 * before(j), 4) ELSE <<>>] ELSE <<>>]]
Dec(b, st) == CASE st.ph = "head" -> DecHead(b, st.pos) [] st.ph = "var" -> DecVar(b, st.pos) [] st.ph = "mru" -> DecMru(b, st.pos)
                [] st.ph = "ent" -> DecEnt(b, st.pos) [] st.ph = "slot" -> DecSlot(b, st.pos) [] st.ph = "node" -> DecNode(b, st.pos)
(* the items of a whole file, or where it breaks off / what is unknown *)
RECURSIVE ParseFrom(_, _, _)
ParseFrom(b, st, acc) ==
    IF st.ph = "end" THEN [res |-> "ok", items |-> acc, pos |-> st.pos]
    ELSE IF st.pos >= Len(b) /\ st.ph # "end" THEN [res |-> "cut", items |-> acc, pos |-> st.pos]
    ELSE LET d == Dec(b, st) IN
         IF st.pos + d.n > Len(b) THEN [res |-> "cut", items |-> acc, pos |-> st.pos]
         ELSE IF st.ph = "slot" /\ d.x.c >= 0 THEN [res |-> "edited", items |-> acc, pos |-> st.pos]   \* an edited slot: not decoded here
         ELSE IF ~KnownItem(d.x) \/ (st.ph = "slot" /\ st.left + d.x.c < 0) THEN [res |-> "unknown", items |-> acc, pos |-> st.pos]
         ELSE ParseFrom(b, Follow(st, d.x, d.n), Append(acc, d.x))
Parse(b) == ParseFrom(b, Start, <<>>)

(* a map in memory and what may be done to it *)
ItemsOfKind(items, k) == SelectSeq(items, LAMBDA x : x.k = k)
MapOf(items) == [head |-> items[1], vars |-> ItemsOfKind(items, "var"), mru |-> ItemsOfKind(items, "mru")[1].l,
                 ents |-> ItemsOfKind(items, "ent"), slots |-> ItemsOfKind(items, "slot"), nodes |-> ItemsOfKind(items, "node")]
(* what is saved: the head counts what the map holds *)
HeadOf(m) == [m.head EXCEPT !.nv = Len(m.vars), !.meta[2] = Len(m.ents)]
ItemsOf(m) == <<HeadOf(m)>> \o m.vars \o <<[k |-> "mru", l |-> m.mru]>> \o m.ents \o m.slots \o m.nodes
Saved(m) == EncAll(ItemsOf(m))
AfterSave(m) == [m EXCEPT !.head = HeadOf(m)]

VarAt(m, name) == {n \in 1..Len(m.vars) : m.vars[n].name = name}
SetVar(m, v) == IF VarAt(m, v.name) = {} THEN [m EXCEPT !.vars = Append(@, v)]
                ELSE [m EXCEPT !.vars = [n \in 1..Len(m.vars) |-> IF n \in VarAt(m, v.name) THEN v ELSE m.vars[n]]]
DelVar(m, name) == [m EXCEPT !.vars = SelectSeq(@, LAMBDA v : v.name # name)]
AddEnt(m, x) == [m EXCEPT !.ents = Append(@, x)]
DelEnt(m, n) == [m EXCEPT !.ents = SubSeq(@, 1, n - 1) \o SubSeq(@, n + 1, Len(@))]
ChgEnt(m, n, x) == [m EXCEPT !.ents[n] = x]
SetMru(m, l) == [m EXCEPT !.mru = l]
SetMeta(m, n, v) == [m EXCEPT !.head.meta[n] = v]
(* the subtree at index i of a preorder sequence ends before ... *)
RECURSIVE SkipNodes(_, _, _)
SkipNodes(nodes, i, left) == IF left = 0 THEN i ELSE SkipNodes(nodes, i + 1, left - 1 + (IF HasChildren(nodes[i].o) THEN 8 ELSE 0))
RootAt(m, n) == SkipNodes(m.nodes, 1, n - 1)
SetRoot(m, n, x) == LET i == RootAt(m, n)  j == SkipNodes(m.nodes, i, 1)
                    IN [m EXCEPT !.nodes = SubSeq(@, 1, i - 1) \o x \o SubSeq(@, j, Len(@))]
Skybox == <<115, 107, 121, 98, 111, 120>>
SetSky(m, path) == SetVar(m, [k |-> "var", name |-> Skybox, t |-> 2, i |-> 0, s |-> path])
=============================================================================
