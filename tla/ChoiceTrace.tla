----------------------------- MODULE ChoiceTrace --------------------------
(* Judges choices of the code: how often it chose what of which offer.      *)
EXTENDS TraceKit, Choice
VARIABLES s, i
Count(e, v) == LET h == {r \in Range(e.counts) : r.v = v} IN IF h = {} THEN 0 ELSE (CHOOSE r \in h : TRUE).c
Counted(q, e) ==
    [C28_works |-> e.raised = 0,
     C28_offered |-> e.others = 0,
     C28_never |-> \A v \in Values(q) \ Choosable(q) : Count(e, v) = 0,
     C28_proportion |-> (e.raised = 0 /\ Total(q) > 0) => \A v \in Values(q) : Fits(Count(e, v), e.n, WeightOf(q, v), Total(q))]
Clauses(e) ==
    CASE e.op = "weights" -> Counted(e.offer, e)
      [] e.op = "room" -> Counted(RoomOffer(e.tab, e.opts), e)
      [] e.op = "stream" -> [C28_works |-> e.raised = 0, C28_permutation |-> \A q \in Range(e.orders) : Permutation(q, e.opts)]
      [] e.op = "first" ->
         LET q == RoomOffer(e.tab, e.opts) IN
         [C28_works |-> e.raised = 0, C28_offered |-> e.others = 0,
          C28_first |-> \A v \in Values(q) : Fits(Count(e, v), e.n, WeightOf(q, v), Total(q))]
      [] e.op = "door" ->
         IF \E r \in Range(e.offer) : r.w < 0 THEN [C28_weights |-> FALSE]
         ELSE IF e.offer = <<>> THEN [C28_none |-> e.raised = e.n, C28_same |-> e.same]
         ELSE [C28_works |-> e.raised = 0, C28_offered |-> e.others = 0, C28_same |-> e.same,
               C28_never |-> \A v \in Values(e.offer) \ Choosable(e.offer) : Count(e, v) = 0,
               C28_proportion |-> (e.raised = 0 /\ Total(e.offer) > 0) => \A v \in Values(e.offer) : Fits(Count(e, v), e.n, WeightOf(e.offer, v), Total(e.offer))]
      [] e.op = "flavour" ->
         [C28_flavour |-> e.raised = 0 /\ \A a, b \in Range(e.cells) :
             /\ a.w >= 0
             /\ (Prefers(e.f, a.p, b.p) => a.w > b.w)
             /\ (Alike(e.f, a.p, b.p) => a.w = b.w)]
TInit == s \in 1..Len(Scenarios) /\ i = 0
TNext == LET sc == Scenarios[s] IN
    /\ i < Len(sc.ev) /\ i' = i + 1 /\ s' = s
    /\ Report(sc, i + 1, sc.ev[i + 1].key, Failing(Clauses(sc.ev[i + 1])))
    /\ Done(sc, i + 1)
=============================================================================
