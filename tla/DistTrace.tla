------------------------------ MODULE DistTrace ---------------------------
(* Judges the answers of tables of weights, those of the repository and     *)
(* generated ones.  Weights are compared as text; n is 10000 times one.     *)
EXTENDS Dist, TraceKit
VARIABLES s, i
Entries(sc) == {[a |-> r.a, b |-> r.b, w |-> r.w] : r \in Range(sc.tab)}
Bare(q) == {[b |-> r.b, w |-> r.w] : r \in Range(q)}
Clauses(sc, e) == LET tab == Entries(sc) IN
    CASE e.op = "for" ->
        [C30_works |-> e.res = "ok",
         C30_offer |-> e.res = "ok" => Bare(e.got) = Offer(tab, sc.mirror, e.a) /\ Len(e.got) = Cardinality(Bare(e.got)),
         C30_followed |-> (sc.shipped /\ e.a \in Types(tab)) => \E r \in Range(e.got) : r.n > 0]
      [] e.op = "tp" ->
        [C30_pair |-> Known(tab, sc.mirror, e.a, e.b) => e.res = "ok" /\ e.w = Weight(tab, sc.mirror, e.a, e.b),
         C30_refused |-> ~Known(tab, sc.mirror, e.a, e.b) => e.res = "raise"]
      [] e.op = "table" ->
        [C30_legal |-> sc.shipped => \A r \in Range(sc.tab) : r.n >= 0,
         C30_kept |-> {[a |-> r.a, b |-> r.b, w |-> r.w] : r \in Range(e.tab)} = tab]
TInit == s \in 1..Len(Scenarios) /\ i = 0
TNext == LET sc == Scenarios[s] IN
    /\ i < Len(sc.ev) /\ i' = i + 1 /\ s' = s
    /\ Report(sc, i + 1, sc.ev[i + 1].key, Failing(Clauses(sc, sc.ev[i + 1])))
    /\ Done(sc, i + 1)
=============================================================================
