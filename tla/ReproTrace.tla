------------------------------ MODULE ReproTrace --------------------------
(* Judges recorded runs of the generator, in the order they ended.          *)
EXTENDS Repro, TraceKit
VARIABLES s, i, known
Same(e, p) == Seen(known, e.args) => p \notin Differences(Result(known, e.args), e.result)
Clauses(e) ==
    [C25_ended |-> e.res = "ok",
     C25_outcome |-> Same(e, "outcome"),
     C25_rooms |-> Same(e, "rooms"),
     C25_links |-> Same(e, "links"),
     C25_voxels |-> Same(e, "voxels"),
     C25_entities |-> Same(e, "entities"),
     C25_mpz |-> Same(e, "mpz"),
     C25_cfg |-> Same(e, "cfg"),
     C25_graph |-> Same(e, "graph")]
TInit == s \in 1..Len(Scenarios) /\ i = 0 /\ known = {}
TNext == LET sc == Scenarios[s] IN
    /\ i < Len(sc.ev) /\ i' = i + 1 /\ s' = s
    /\ LET e == sc.ev[i + 1] IN
         /\ Report(sc, i + 1, e.key, Failing(Clauses(e)))
         /\ known' = IF e.res = "ok" THEN Keep(known, e.args, e.result) ELSE known
    /\ Done(sc, i + 1)
=============================================================================
