--------------------------- MODULE VectorTrace ----------------------------
(* Judges recorded vector operations of redeclipse.vector.                  *)
EXTENDS Vector, TraceKit
VARIABLES s, i, st

Ev == {"rot", "add", "sub", "offrot", "fine", "coarse", "entity", "mul", "div", "floordiv", "vox"}
C7Ops == {"rot", "offrot"}
(* st: the value the chain should have reached; "start" events reset it *)
Clauses(x, e) ==
    CASE e.op \in Ev ->
           LET want == Apply(e.op, e.a, e.b, e.n)
               good == e.r = want
           IN [C07_chain |-> e.chain => e.a = x,
               C08_chain |-> e.chain => e.a = x,
               C07_rotate |-> e.op \in C7Ops => good,
               C08_value |-> e.op \notin C7Ops => good,
               C07_pure |-> e.a = e.a2 /\ e.b = e.b2,
               C08_pure |-> e.a = e.a2 /\ e.b = e.b2]
      [] e.op = "pair" ->
           [C07_equal |-> e.eq = Equal(e.a, e.b) /\ e.ne = ~Equal(e.a, e.b)
                          /\ e.qe = Equal(e.a, e.b),
            C07_hash  |-> Equal(e.a, e.b) => e.samehash /\ e.found,
            C07_order |-> e.a.c = e.b.c => /\ e.lt = Before(e.a.p, e.b.p)
                                           /\ e.gt = Before(e.b.p, e.a.p)
                                           /\ e.le = ~Before(e.b.p, e.a.p)]
      [] e.op = "access" -> [C07_access |-> e.items = e.a.p /\ e.iter = e.a.p /\ e.len = 3,
                             C07_refused |-> e.refused]
      [] e.op = "dir" ->       \* a named direction and what the helpers say about it
           [C07_names |-> e.name = Dirs[e.n + 1] /\ e.vec.p = Unit(e.n) /\ e.fine.p = Unit(e.n)
                          /\ e.vec.c = "C" /\ e.fine.c = "F",
            C07_angle |-> (e.deg % 360) = 90 * e.n]
      [] e.op = "yaw" -> [C07_yaw |-> e.out = Yaw(e.angle, e.n)]
      [] e.op = "const" -> [C07_const |-> e.vec = e.want]
      [] OTHER -> [C07_known_op |-> FALSE]

TInit == /\ s \in 1..Len(Scenarios) /\ i = 0 /\ st = Raise
TNext == LET sc == Scenarios[s] IN
    /\ i < Len(sc.ev) /\ i' = i + 1 /\ s' = s
    /\ LET e == sc.ev[i + 1] IN
         /\ Report(sc, i + 1, e.key, Failing(Clauses(st, e)))
         /\ st' = IF e.op \in Ev THEN e.r ELSE st
    /\ Done(sc, i + 1)
=============================================================================
