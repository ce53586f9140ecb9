------------------------------ MODULE UpmTrace ----------------------------
(* Judges recorded histories of UnusedPositionManager.                      *)
EXTENDS Upm, TraceKit
VARIABLES s, i, st

Pairs(ds) == {<<<<d[1], d[2], d[3]>>, <<d[4], d[5], d[6]>>>> : d \in Range(ds)}
RoomOf(r) == [c |-> Range(r.c), d |-> Pairs(r.d), t |-> r.t, f |-> r.f, k |-> r.k]
RoomsOf(rs) == [n \in 1..Len(rs) |-> RoomOf(rs[n])]
ShOf(v) == [c |-> Range(v.c), d |-> Pairs(v.d)]
KindsOf(sc, e) == {{ShOf(v) : v \in Range(sc.cat[x].shs)} : x \in Range(e.offered)}
CapsOf(sc, e) == {ShOf(sc.cat[x].shs[1]) : x \in Range(e.offered)}
FrontOf(e) == {<<<<d[1], d[2], d[3]>>, d[4], <<d[5], d[6], d[7]>>>> : d \in Range(e.fr)}
LinksOf(e) == [n \in 1..Len(e.links) |-> <<<<e.links[n][1], e.links[n][2], e.links[n][3]>>, <<e.links[n][4], e.links[n][5], e.links[n][6]>>>>]
Cell4(q) == <<q[1], q[2], q[3]>>
OccPairs(qs) == {<<Cell4(q), q[4]>> : q \in Range(qs)}

(* the same shape somewhere *)
Low(c, j) == CHOOSE v \in {p[j] : p \in c} : \A p \in c : v <= p[j]
LowOf(c) == <<Low(c, 1), Low(c, 2), Low(c, 3)>>
NormShape(r) == LET l == LowOf(r.c) IN <<{Minus(p, l) : p \in r.c}, {<<Minus(d[1], l), d[2]>> : d \in r.d}>>
IsKind(sc, r, offered) ==
    \E x \in Range(offered) : /\ sc.cat[x].t = r.t
                              /\ \E v \in Range(sc.cat[x].shs) : NormShape(Built(ShOf(v), r.k, O)) = NormShape(r)

After(q, e) ==
    LET add == RoomsOf(e.add)
        occ == (q.occ \cup {x[1] : x \in OccPairs(e.occadd)}) \ {x[1] : x \in OccPairs(e.occdel)}
        front == FrontOf(e)
    IN [rooms |-> q.rooms \o add, occ |-> occ, front |-> front,
        gone |-> q.gone \cup (Open(q.front, Len(q.rooms), add, occ) \ front),
        links |-> q.links \o LinksOf(e),
        whole |-> q.whole /\ (e.op = "reg" => e.res = "ok"),
        sym |-> q.sym /\ e.op \notin {"cap", "debugcap"} /\ (e.op = "reg" => e.res = "ok")]

Clauses(sc, q, e) ==
    LET m == sc.m
        add == RoomsOf(e.add)
        n0 == Len(q.rooms)
        a == After(q, e)
        base == RoomOf(e.base)
        placing == e.op = "place"
        changes == placing \/ e.op \in {"reg", "cap", "debugcap"}
        turns == MirrorTurns(m)
        blocks == Len(add) \div m
        B(n) == SubSeq(add, (n - 1) * m + 1, n * m)
        lk == LinksOf(e)
        L(n) == SubSeq(lk, (n - 1) * m + 1, n * m)
        want == Open(q.front, n0, add, a.occ)
        newc == CellsOf(add)
    IN [\* --- register
        C12_pre |-> e.op = "pre" => (e.res = "yes" <=> Fits(q.occ, base, m)) /\ e.res \in {"yes", "no"},
        C12_unchanged |-> ~changes => add = <<>> /\ e.occadd = <<>> /\ e.occdel = <<>> /\ a.front = q.front /\ lk = <<>>,
        C12_reg |-> e.op = "reg" =>
             LET k == Accepted(q.occ, Images(base, m), 1)
             IN Len(add) = k /\ (e.res = "ok" <=> k = Len(turns)),
        C12_disjoint |-> newc \cap q.occ = {} /\ ~Overlap(add),
        C12_register |-> OccPairs(e.occadd) = {x \in newc \X ((n0 + 1)..(n0 + Len(add))) : x[1] \in add[x[2] - n0].c} /\ e.occdel = <<>>,
        C12_others |-> e.same,
        \* --- open doors
        C13_once |-> Len(e.fr) = Cardinality(a.front),
        C13_extra |-> a.front \subseteq want,
        C13_missing |-> (~placing) => want \subseteq a.front,
        C13_gaveup |-> placing => \A d \in want \ a.front :
             ~MustAttach(IF e.n <= m THEN q.occ ELSE a.occ, KindsOf(sc, e), d, m),
        \* --- mirror images
        C14_all |-> e.op = "reg" => Len(add) = Accepted(q.occ, Images(base, m), 1),
        C14_images |-> (e.op = "reg" /\ Len(add) > 0) => add = SubSeq(Images(base, m), 1, Len(add)),
        C14_blocks |-> placing => \A n \in 1..blocks : B(n) = Images(B(n)[1], m),
        C14_symmetric |-> (a.sym /\ (e.op = "reg" \/ placing)) => Symmetric(a.rooms, a.occ, a.front \cup {d \in a.gone : d[1] \notin a.occ}, m),
        C14_independent |-> e.indep,
        \* --- joined door to door
        C15_links |-> IF placing THEN Len(lk) = Len(add) ELSE lk = <<>>,
        C15_joined |-> (placing /\ Len(lk) = Len(add) /\ Len(add) = blocks * m) =>
             \A n \in 1..blocks : \A j \in 1..(IF q.whole THEN m ELSE 1) :
                 /\ L(n)[j][2] \in B(n)[j].c
                 /\ \E h \in 1..(n0 + (n - 1) * m) : L(n)[j][1] \in a.rooms[h].c /\ Joined(a.rooms[h], B(n)[j])
                 /\ L(n)[j] = <<Turn16(L(n)[1][1], turns[j]), Turn16(L(n)[1][2], turns[j])>>,
        C15_reach |-> (placing /\ e.last) =>
             LET edges == {x \in (1..Len(a.rooms)) \X (1..Len(a.rooms)) : Joined(a.rooms[x[1]], a.rooms[x[2]])}
             IN Grow(1..sc.first, edges, Len(a.rooms)) = 1..Len(a.rooms),
        C15_linkreach |-> (placing /\ e.last) =>
             LET edges == {x \in (1..Len(a.rooms)) \X (1..Len(a.rooms)) :
                              \E l \in Range(a.links) : \/ l[1] \in a.rooms[x[1]].c /\ l[2] \in a.rooms[x[2]].c
                                                        \/ l[2] \in a.rooms[x[1]].c /\ l[1] \in a.rooms[x[2]].c}
             IN Grow(1..sc.first, edges, Len(a.rooms)) = 1..Len(a.rooms),
        \* --- progress
        C16_ends |-> placing => e.res = "ok",
        C16_whole |-> placing => Len(add) % m = 0 /\ Len(add) < e.n + m,
        C16_enough |-> placing => Len(add) >= e.n \/ a.front = {},
        C16_offered |-> placing => \A n \in 1..Len(add) : IsKind(sc, add[n], e.offered),
        C16_gaveup |-> placing => \A d \in want \ a.front :
             ~MustAttach(IF e.n <= m THEN q.occ ELSE a.occ, KindsOf(sc, e), d, m),
        C16_lazy |-> (placing /\ (e.n = 0 \/ q.front = {})) => add = <<>> /\ a.front = q.front,
        \* --- inside of the world
        C17_legal |-> e.op = "legal" => ((e.res = "yes") <=> Legal(e.base.c[1])) /\ e.res \in {"yes", "no"},
        C17_cells |-> (placing \/ e.op \in {"cap", "debugcap"}) => \A c \in newc : Legal(c),
        C17_doors |-> placing => \A n \in 1..Len(add) : \A d \in add[n].d : Legal(d[1]),
        \* --- end caps
        C18_result |-> e.op \in {"cap", "debugcap"} => e.res = "ok",
        C18_free |-> e.op \in {"cap", "debugcap"} => newc \cap q.occ = {} /\ ~Overlap(add),
        C18_faces |-> e.op = "cap" => \A n \in 1..Len(add) :
             /\ \E door \in q.front : \E d \in add[n].d : d[2] = Opp(door[3]) /\ Minus(d[1], d[2]) = door[1] /\ door[1] \in add[n].c
             /\ IsKind(sc, add[n], e.offered),
        C18_closed |-> e.op = "cap" => \A door \in q.front :
             door[1] \in a.occ \/ \A sh \in CapsOf(sc, e), k \in 0..3 : ~CanCap(a.occ, sh, k, door),
        C18_marker |-> e.op = "debugcap" =>
             /\ \A door \in q.front : door[1] \in a.occ
             /\ newc = {door[1] : door \in q.front} /\ \A n \in 1..Len(add) : Cardinality(add[n].c) = 1,
        C18_kept |-> e.op \in {"cap", "debugcap"} => e.same /\ e.occdel = <<>> /\ lk = <<>>,
        \* --- the exported graph
        C31_result |-> e.op = "graph" => e.res = "ok",
        C31_nodes |-> (e.op = "graph" /\ e.res = "ok") =>
             LET real == SelectSeq(e.nodes, LAMBDA x : x.i # 0)
             IN /\ Len(real) = n0 /\ {x.i : x \in Range(real)} = 1..n0
                /\ \A x \in Range(real) : x.name = q.rooms[x.i].t /\ x.label = q.rooms[x.i].t,
        C31_ends |-> (e.op = "graph" /\ e.res = "ok") =>
             \A x \in Range(e.edges) : x[1] \in {y.i : y \in Range(e.nodes)} /\ x[2] \in {y.i : y \in Range(e.nodes)},
        C31_edges |-> (e.op = "graph" /\ e.res = "ok") =>
             /\ Len(e.edges) = Len(q.links)
             /\ \A n \in 1..Len(q.links) :
                  LET is(c, x) == IF x = 0 THEN c \notin q.occ ELSE x \in 1..n0 /\ c \in q.rooms[x].c
                  IN (is(q.links[n][1], e.edges[n][1]) /\ is(q.links[n][2], e.edges[n][2]))]

TInit == /\ s \in 1..Len(Scenarios) /\ i = 0
         /\ st = [rooms |-> <<>>, occ |-> {}, front |-> {}, gone |-> {}, links |-> <<>>, sym |-> TRUE, whole |-> TRUE]
TNext == LET sc == Scenarios[s] IN
    /\ i < Len(sc.ev) /\ i' = i + 1 /\ s' = s
    /\ LET e == sc.ev[i + 1] IN
         /\ Report(sc, i + 1, e.key, Failing(Clauses(sc, st, e)))
         /\ st' = After(st, e)
    /\ Done(sc, i + 1)
=============================================================================
