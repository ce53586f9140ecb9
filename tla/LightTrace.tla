------------------------------ MODULE LightTrace --------------------------
(* Judges the lights which managers add to a map.                           *)
EXTENDS Light, TraceKit
VARIABLES s, i, st, seen           \* seen: colours by position and settings
(* what is new on the map after the event *)
New(q, e) == IF Len(e.lights) = Len(q.lights) + 1 THEN e.lights[Len(e.lights)] ELSE [t |-> 0, o |-> <<>>, a |-> <<>>, d |-> FALSE]
Colour(l) == IF Len(l.a) = 6 THEN <<l.a[2], l.a[3], l.a[4]>> ELSE <<-1, -1, -1>>
Bare(l) == [o |-> l.o, a |-> l.a]
After(q, e) == IF e.x.op = "light" THEN Step(q, e.x, Colour(New(q, e))) ELSE Step(q, e.x, <<0, 0, 0>>)
(* what a colour may depend on *)
Centre(x) == [j \in 1..3 |-> x.p[j] + (IF x.centre THEN 8 ELSE 0)]
Key(q, x) == LET m == q.mans[x.n] IN <<Centre(x), m.cls, m.b, m.s>>
Clauses(q, e) ==
    LET x == e.x  l == New(q, e)  c == Colour(l)  isl == x.op = "light" IN
    [C26_works |-> e.res = "ok",
     C26_one |-> IF isl THEN Len(e.lights) = Len(q.lights) + 1 /\ e.others ELSE Len(e.lights) = Len(q.lights),
     C26_earlier |-> \A j \in 1..Min(Len(q.lights), Len(e.lights)) : Bare(e.lights[j]) = q.lights[j],
     C26_light |-> isl => Bare(l) = LightOf(q.mans[x.n], x, c) /\ l.t = 1 /\ l.d,
     C26_valid |-> isl => \A j \in 1..3 : c[j] \in 0..255,
     C26_colour |-> isl => Legal(q, x, c, e.h),
     C26_pure |-> isl => Pure(e.h) /\ e.h2 = e.h,
     C26_same |-> (isl /\ x.over = <<>>) => \A r \in seen : r[1] = Key(q, x) => r[2] = c]
TInit == s \in 1..Len(Scenarios) /\ i = 0 /\ st = Start0 /\ seen = {}
TNext == LET sc == Scenarios[s] IN
    /\ i < Len(sc.ev) /\ i' = i + 1 /\ s' = s
    /\ LET e == sc.ev[i + 1] IN
         /\ Report(sc, i + 1, e.key, Failing(Clauses(st, e)))
         /\ st' = After(st, e)
         /\ seen' = IF e.x.op = "light" /\ e.x.over = <<>> THEN seen \cup {<<Key(st, e.x), Colour(New(st, e))>>} ELSE seen
    /\ Done(sc, i + 1)
=============================================================================
