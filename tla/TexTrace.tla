----------------------------- MODULE TexTrace ------------------------------
(* Checks recorded requests and emitted configuration files.                 *)
(* State: the atlas of each manager (in order of sc.man) and the flavour     *)
(* lines of each map.                                                        *)
EXTENDS Tex, TraceKit
VARIABLES s, i, st

(* the outcome of a request for key: its number, and the atlas grows by it *)
Answered(a, e, key) == e.res = Number(Ask(a, key), key) /\ e.key2 = key
(* what a manager may answer to event e *)
Legal(sc, a, e) ==
    LET man == sc.man[e.m]
        names == Range(man.names)
    IN CASE e.op = "get" -> IF e.k \in names \cup Range(a) THEN Answered(a, e, e.k) ELSE e.res = -1
         [] e.op = "bad" -> e.res = -1
         [] e.op = "colour" -> IF man.kind = "rainbow" THEN e.key2 # "" /\ e.hue \in Hues /\ Answered(a, e, e.key2)
                               ELSE Answered(a, e, e.k)
         [] e.op = "cat" -> CASE man.kind = "rainbow" -> e.key2 # "" /\ e.hue \in Hues /\ Answered(a, e, e.key2)
                              [] man.kind = "colour" -> Answered(a, e, PlainColour(e.k))
                              [] OTHER -> e.key2 \in Range(e.theme) /\ e.key2 \in names /\ Answered(a, e, e.key2)
         [] e.op = "theme" -> Range(e.theme) \subseteq names /\ Range(e.theme) # {}
         [] OTHER -> TRUE
Grown(a, e) == IF e.op \in {"get", "colour", "cat"} /\ e.res # -1 THEN Ask(a, e.key2) ELSE a

Tex0(sc, k) == CHOOSE t \in Range(sc.tex) : t.k = k
FileClauses(sc, a, x, e) ==
    LET ls == e.lines
        bs == Blocks(ls)
        shaped == \A b \in 1..Len(bs) : BlockShape(bs[b])
    IN [C27_written |-> e.ok /\ (ls = <<>> \/ ls[1].h = "setshader"),
        C27_count |-> Len(bs) = Len(a),
        C27_shape |-> shaped,
        C27_texture |-> shaped => \A b \in 1..Len(bs) : b <= Len(a) => BlockIs(bs[b], Tex0(sc, a[b]), b - 1),
        C27_flavours |-> Tail0(ls) = x,
        C27_saved |-> e.saved]

Clauses(sc, v, e) ==
    IF e.op = "emit" THEN FileClauses(sc, v.atlas[e.m], v.extra[e.p], e)
    ELSE IF e.op = "flavour" THEN
        [C27_update |-> (\A f \in Range(e.f) : f \in FlavourNames) => e.same,
         C27_unknown |-> (\E f \in Range(e.f) : f \notin FlavourNames) => e.res = -1]
    ELSE [C19_answer |-> Legal(sc, v.atlas[e.m], e),
          C19_atlas |-> e.op \in {"get", "bad", "colour", "cat", "dump"} => e.dump = [j \in 1..Len(sc.man) |-> IF j = e.m THEN Grown(v.atlas[j], e) ELSE v.atlas[j]],
          C19_dense |-> e.op = "dump" => \A j \in 1..Len(sc.man) : e.idx[j] = [q \in 1..Len(v.atlas[j]) |-> q - 1]]
After(sc, v, e) ==
    IF e.op = "emit" THEN v
    ELSE IF e.op = "flavour" THEN [v EXCEPT !.extra[e.p] = IF e.res = -1 THEN @ ELSE @ \o Flavours(e.f)]
    ELSE IF e.op \in {"get", "bad", "colour", "cat"} THEN [v EXCEPT !.atlas = e.dump] ELSE v

TInit == /\ s \in 1..Len(Scenarios) /\ i = 0
         /\ st = [atlas |-> [j \in 1..Len(Scenarios[s].man) |-> NewAtlas], extra |-> <<<<>>, <<>>>>]
TNext == LET sc == Scenarios[s] IN
    /\ i < Len(sc.ev) /\ i' = i + 1 /\ s' = s
    /\ LET e == sc.ev[i + 1] IN
         /\ Report(sc, i + 1, e.key, Failing(Clauses(sc, st, e)))
         /\ st' = After(sc, st, e)
    /\ Done(sc, i + 1)
=============================================================================
