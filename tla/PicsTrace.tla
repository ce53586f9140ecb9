----------------------------- MODULE PicsTrace -----------------------------
(* Checks which pictures the code put where.  Contents are lists of          *)
(* <<name, content>>.                                                        *)
EXTENDS Pics, TraceKit
VARIABLES s, i, st

Fun(list) == [p \in {x[1] : x \in Range(list)} |-> (CHOOSE x \in Range(list) : x[1] = p)[2]]
PicsFun(sc) == [k \in {t.k : t \in Range(sc.tex)} |-> Range((CHOOSE t \in Range(sc.tex) : t.k = k).p)]
Clauses(sc, v, e) ==
    CASE e.op = "output" ->
            LET got == Fun(e.folder)
                need == Needs(PicsFun(sc), v.used[e.m])
                want == Put(v.folder, v.store, need)
            IN [C32_done |-> e.ok,
                C32_copied |-> \A p \in need : p \in DOMAIN got /\ got[p] = want[p],
                C32_kept |-> \A p \in DOMAIN v.folder : p \in DOMAIN got /\ got[p] = want[p],
                C32_only |-> DOMAIN got \subseteq DOMAIN want]
      [] e.op = "sky" ->
            LET got == Fun(e.folder)
                need == SkyPics(e.k)
                want == Put(v.sky, v.store, need)
            IN [C32_done |-> e.ok,
                C32_sky |-> got = want,
                C32_path |-> e.path = SkyPath(e.k) /\ e.var = e.path]
      [] OTHER -> [C32_ask |-> e.op = "ask" => e.ok]
After(sc, v, e) ==
    CASE e.op = "output" -> [v EXCEPT !.folder = Fun(e.folder)]
      [] e.op = "sky" -> [v EXCEPT !.sky = Fun(e.folder)]
      [] e.op = "ask" -> [v EXCEPT !.used[e.m] = @ \cup {e.k}]
      [] OTHER -> [v EXCEPT !.store = [p \in DOMAIN @ |-> IF p = e.k THEN e.to ELSE @[p]]]

TInit == /\ s \in 1..Len(Scenarios) /\ i = 0
         /\ st = [used |-> <<{}, {}>>, store |-> Fun(Scenarios[s].store), folder |-> Fun(Scenarios[s].folder), sky |-> Fun(Scenarios[s].sky)]
TNext == LET sc == Scenarios[s] IN
    /\ i < Len(sc.ev) /\ i' = i + 1 /\ s' = s
    /\ LET e == sc.ev[i + 1] IN
         /\ Report(sc, i + 1, e.key, Failing(Clauses(sc, st, e)))
         /\ st' = After(sc, st, e)
    /\ Done(sc, i + 1)
=============================================================================
