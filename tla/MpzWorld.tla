-------------------------------- MODULE MpzWorld --------------------------
(* Decodes the bytes of a generated map file step by step and compares what *)
(* it contains with the world and the map it was made of.                   *)
EXTENDS Mpz, TraceKit
VARIABLES s, st, cnt, stk, n
(* sc.world lists the voxels of the world as <<x, y, z, texture>>, those that are inside first and in preorder *)
Inside(sc, v) == \A j \in 1..3 : 0 <= v[j] /\ v[j] < sc.size
(* commands of the configuration that define a texture number *)
Defined(sc) == Cardinality({j \in 1..Len(sc.cfg) : sc.cfg[j] = "texture c"})
Filled(x) == Kind(x.o) = 2 \/ (Kind(x.o) = 3 /\ \A j \in 1..12 : x.e[j] = 128)
(* stack of the cubes whose children are listed: <<x, y, z, size of a child, next child>> *)
Top == stk[Len(stk)]
Corner == LET c == Top[5] IN <<Top[1] + (c % 2) * Top[4], Top[2] + ((c \div 2) % 2) * Top[4], Top[3] + (c \div 4) * Top[4]>>
RECURSIVE Pop(_)
Pop(t) == IF t # <<>> /\ t[Len(t)][5] = 8 THEN Pop(SubSeq(t, 1, Len(t) - 1)) ELSE t
Push(x) == LET t == [stk EXCEPT ![Len(stk)][5] = @ + 1]  c == Corner
           IN Pop(IF HasChildren(x.o) THEN Append(t, <<c[1], c[2], c[3], Top[4] \div 2, 0>>) ELSE t)
Cubes(c, size) == {<<c[1] + a, c[2] + b, c[3] + d>> : a, b, d \in 0..(size - 1)}

Clauses(sc, x) ==
    [C05_head |-> n <= Len(sc.items) =>
         IF x.k = "head" THEN x.magic = sc.items[1].magic /\ x.ver = sc.items[1].ver /\ x.gi = sc.items[1].gi /\ x.meta[1] = sc.items[1].meta[1]
         ELSE IF x.k = "ent" THEN TRUE
         ELSE ~sc.items[n].bad /\ Enc(sc.items[n]) = Enc(x),
     C05_entities |-> (n <= Len(sc.items) /\ x.k = "ent") => sc.items[n].k = "ent" /\ ~sc.items[n].bad /\ Enc(sc.items[n]) = Enc(x),
     C05_known |-> KnownItem(x),
     C05_count |-> (n > Len(sc.items)) => x.k = "node",
     C05_voxels |-> (x.k = "node" /\ ~HasChildren(x.o) /\ Filled(x)) =>
         /\ Top[4] >= 1
         /\ cnt + Top[4] ^ 3 <= Len(sc.world)
         /\ LET next == {sc.world[cnt + j] : j \in 1..Top[4] ^ 3}
            IN {<<v[1], v[2], v[3]>> : v \in next} = Cubes(Corner, Top[4]) /\ \A v \in next : v[4] = x.tex[1]
         /\ \A j \in 1..6 : x.tex[j] = x.tex[1],
     C05_shapes |-> (x.k = "node" /\ ~HasChildren(x.o)) => (Filled(x) \/ Kind(x.o) = 1),
     C05_textures |-> (x.k = "node" /\ ~HasChildren(x.o) /\ Filled(x)) => \A j \in 1..6 : x.tex[j] \in 0..(Defined(sc) - 1)]

TInit == s \in 1..Len(Scenarios) /\ st = Start /\ cnt = 0 /\ n = 1 /\ stk = <<<<0, 0, 0, Scenarios[s].size \div 2, 0>>>>
Say(sc, bad) == bad = {} \/ PrintT("@@V " \o ToJson([s |-> sc.id, i |-> n, k |-> sc.key, c |-> bad]))
Finish(sc, bad) == /\ Say(sc, bad) /\ PrintT("@@D " \o ToJson([s |-> sc.id]))
                   /\ st' = [st EXCEPT !.ph = "done"] /\ UNCHANGED <<s, cnt, stk, n>>
TNext ==
    /\ st.ph # "done"
    /\ LET sc == Scenarios[s] IN
       IF st.ph = "end" THEN Finish(sc, (IF \A j \in (cnt + 1)..Len(sc.world) : ~Inside(sc, sc.world[j]) THEN {} ELSE {"C05_missing"}) \cup (IF st.pos = Len(sc.b) THEN {} ELSE {"C05_rest"}))
       ELSE LET d == Dec(sc.b, st) IN
            IF st.pos + d.n > Len(sc.b) THEN Finish(sc, {"C05_cut"})
            ELSE /\ Say(sc, Failing(Clauses(sc, d.x)))
                 /\ st' = Follow(st, d.x, d.n) /\ n' = n + 1 /\ s' = s
                 /\ cnt' = IF d.x.k = "node" /\ ~HasChildren(d.x.o) /\ Filled(d.x) THEN cnt + Top[4] ^ 3 ELSE cnt
                 /\ stk' = IF d.x.k = "node" THEN Push(d.x) ELSE stk
=============================================================================
