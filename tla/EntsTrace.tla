-------------------------------- MODULE EntsTrace -------------------------
(* Judges entities, their files and dictionaries, and dictionaries of maps. *)
EXTENDS MapDict, TraceKit
VARIABLES s, i, st
Fine(items) == \A n \in 1..Len(items) : ~items[n].bad
Arity(x) == x.k = "node" => x.n = (IF HasChildren(x.o) THEN 8 ELSE 0)
NoSlots(items) == SelectSeq(items, LAMBDA x : x.k # "slot")
NoNodes(items) == SelectSeq(items, LAMBDA x : x.k # "node")
Codes(items) == LET l == ItemsOfKind(items, "slot") IN [j \in 1..Len(l) |-> l[j].c]
Alike(items, init) == /\ Fine(items) /\ (\A n \in 1..Len(items) : Arity(items[n])) /\ Codes(items) = Codes(init)
                      /\ EncAll(NoSlots(items)) = EncAll(NoSlots(init))
Named(items) == \A n \in 1..Len(items) :
    LET x == items[n] IN (x.k = "ent" => [tn |-> x.tn, order |-> x.order, w |-> x.w] = EntNames(x)) /\ (x.k = "node" => x.faces = Faces(x))
(* entities of the tool, in the units of the specification *)
Ent(e) == [t |-> e.t, o |-> e.o, a |-> e.a, l |-> e.l, r |-> e.r]
Now(es) == [n \in 1..Len(es) |-> Ent(es[n])]
Begin(sc) == IF sc.kind = "ents" THEN Start0 ELSE IF sc.kind = "mapfile" THEN Start ELSE 0
(* how entities are made, saved and loaded is C22: for dictionaries they are taken as they are *)
Given(q, e) == IF Prop = "C23" /\ e.x.op \in {"new", "pair", "load"} THEN [Step(q, e.x) EXCEPT !.ents = Now(e.ents)] ELSE Step(q, e.x)
After(sc, q, e) == IF sc.kind = "ents" THEN Given(q, e)
                   ELSE IF sc.kind = "mapfile" /\ e.op = "item" THEN IF q.ph = e.x.k THEN Follow(q, e.x, Len(Enc(e.x))) ELSE q
                   ELSE q
Legal(q, x) == CASE x.op \in {"new", "pair"} -> LegalMake(x) [] x.op = "load" -> q.has [] OTHER -> TRUE
ClEnts(sc, q, e) ==
    LET x == e.x  a == After(sc, q, e) IN
    [C22_made |-> x.op \in {"new", "pair"} => e.res = (IF LegalMake(x) THEN "ok" ELSE "raise"),
     C22_works |-> x.op \in {"attr", "link", "res", "move", "save", "load"} => e.res = "ok",
     C22_entities |-> ~(x.op = "rebuild") => Now(e.ents) = a.ents,
     C22_bytes |-> x.op = "save" => e.w = FileOf(q.ents),
     C23_exports |-> x.op = "snap" => e.res = "ok",
     C23_entity |-> (x.op = "snap" /\ e.res = "ok") => e.d = DictOf(q.ents[x.n]),
     C23_rebuilds |-> x.op = "rebuild" => e.res = "ok" /\ Now(e.ents) = a.ents,
     C23_apart |-> Now(e.ents) = a.ents]
ClDict(sc, q, e) ==
    [C23_works |-> e.res = "ok",
     C23_content |-> (e.op = "dict" /\ e.res = "ok") => Alike(e.items, sc.init),
     C23_names |-> (e.op = "dict" /\ e.res = "ok") => Named(e.items) /\ e.meta = MetaNames /\ {e.sections[j] : j \in 1..Len(e.sections)} = Sections,
     C23_slots |-> (e.op \in {"dict", "rebuilt"} /\ e.res = "ok") => SlotsAre(SlotsOf(ItemsOfKind(sc.init, "slot"), 1), e.v),
     C23_rebuilt |-> (e.op = "rebuilt" /\ e.res = "ok") => Alike(e.items, NoNodes(sc.init)) /\ e.meta = MetaNames,
     C23_unshared |-> (e.op = "apart" /\ e.res = "ok") => Alike(e.items, sc.init)]
ClFile(sc, q, e) ==
    [C23_works |-> e.op # "item" => e.res = "ok",
     C23_content |-> e.op = "item" => /\ q.ph = e.x.k /\ ~e.x.bad /\ Arity(e.x)
                                      /\ LET c == Enc(e.x) IN c = SubSeq(sc.b, q.pos + 1, q.pos + Len(c)),
     C23_names |-> e.op = "item" => Named(<<e.x>>),
     C23_slots |-> (e.op = "dict" /\ e.res = "ok") => e.v.no = [j \in 1..I32(sc.b, 32) |-> j - 1] /\ \A j \in 1..Len(e.v.tab) : Unset(e.v.tab[j]) = Plain,
     C23_whole |-> e.op = "end" => q.ph = "end"]
Clauses(sc, q, e) == CASE sc.kind = "ents" -> ClEnts(sc, q, e) [] sc.kind = "mapdict" -> ClDict(sc, q, e) [] sc.kind = "mapfile" -> ClFile(sc, q, e)
TInit == s \in 1..Len(Scenarios) /\ i = 0 /\ st = Begin(Scenarios[s])
TNext == LET sc == Scenarios[s] IN
    /\ i < Len(sc.ev) /\ i' = i + 1 /\ s' = s
    /\ LET e == sc.ev[i + 1] IN
         /\ Report(sc, i + 1, e.key, Failing(Clauses(sc, st, e)))
         /\ st' = After(sc, st, e)
    /\ Done(sc, i + 1)
=============================================================================
