----------------------------- MODULE IvecTrace -----------------------------
(* Judges recorded operations of redeclipse.vector.re.                       *)
EXTENDS Ivec, TraceKit
VARIABLES s, i, st

Ops == {"mask", "shl", "sub", "add", "mul", "cross", "octant"}
Clauses(x, e) ==
    CASE e.op \in Ops ->
            [C34_chain |-> e.chain => e.a = x,
             C34_value |-> e.r = Apply(e.op, e.a, e.b, e.n),
             C34_kind |-> e.kind = "ivec3",
             C34_pure |-> e.a2 = e.a /\ e.b2 = e.b]
      [] e.op = "read" ->
            [C34_read |-> e.r = e.a /\ e.items = e.a /\ e.zero = IsZero(e.a) /\ e.whole,
             C34_dot |-> e.dot = Dot(e.a, e.b),
             C34_pure |-> e.a2 = e.a]
      [] e.op = "plain" -> [C34_plain |-> e.r = e.a /\ e.types]
      [] e.op = "real" -> [C34_real |-> e.r = Cross(e.a, e.b) /\ e.kind = "vec3"]
      [] OTHER -> [C34_known_op |-> FALSE]

TInit == /\ s \in 1..Len(Scenarios) /\ i = 0 /\ st = <<0, 0, 0>>
TNext == LET sc == Scenarios[s] IN
    /\ i < Len(sc.ev) /\ i' = i + 1 /\ s' = s
    /\ LET e == sc.ev[i + 1] IN
         /\ Report(sc, i + 1, e.key, Failing(Clauses(st, e)))
         /\ st' = IF e.op \in Ops THEN e.r ELSE st
    /\ Done(sc, i + 1)
=============================================================================
