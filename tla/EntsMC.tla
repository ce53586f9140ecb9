--------------------------------- MODULE EntsMC ---------------------------
(* All short histories over a few entities: what is saved decodes to what   *)
(* was made, dictionaries keep their value, entities stay independent.      *)
EXTENDS Ents, TLC
CONSTANTS Length
VARIABLES q, n, made
vars == <<q, n, made>>
MakeOps == {[op |-> "new", kind |-> k, pk |-> pk, p |-> <<64, -32, 0>>, g |-> g, l |-> l, r |-> <<>>, t |-> 0, a |-> <<>>] :
             k \in {KindNames[j] : j \in 1..9}, pk \in {"coarse", "fine"}, g \in {<<>>, <<<<2, -10>>>>}, l \in {<<>>, <<<<7>>>>}}
AllOps == MakeOps
       \cup {[op |-> "new", kind |-> "Entity", pk |-> "fine", p |-> <<0, 0, 64>>, g |-> <<>>, l |-> <<>>, r |-> <<<<1, 2, 255>>>>, t |-> t, a |-> [j \in 1..c |-> 8]] :
               t \in {0, 3, 9, 4}, c \in {5, 6}}
       \cup {x \in {[op |-> o, n |-> m, j |-> j, v |-> v, p |-> <<1, 2, 3>>] : o \in {"attr", "link", "res", "move", "snap"}, m \in 1..Len(q.ents), j \in {1, 2}, v \in {8, 12}} :
               x.op \in {"move", "snap"} => x.j = 1 /\ x.v = 8}
       \cup {[op |-> "rebuild", n |-> m] : m \in 1..Len(q.snap)} \cup {[op |-> "save"], [op |-> "load"]}
Init == q = Start0 /\ n = 0 /\ made = 0
Next == n < Length /\ \E x \in AllOps : q' = Step(q, x) /\ n' = n + 1
                                         /\ made' = made + (IF x.op = "new" /\ LegalMake(x) THEN 1 ELSE 0)
Spec == Init /\ [][Next]_vars
WellFormed == \A k \in 1..Len(q.ents) : LET e == q.ents[k] IN
    e.t \in EntTypes /\ Len(e.a) = EntAttrs(e.t) /\ Len(e.a) = Len(Names(e.t)) /\ Len(e.r) = 3 /\ KnownItem(Item(e))
(* the dictionary determines the entity *)
Faithful == \A k \in 1..Len(q.ents) : FromDict(DictOf(q.ents[k])) = q.ents[k]
(* the file determines the entities, up to fractions of attributes *)
Readable == LET p == Parse(FileOf(q.ents)) IN p.res = "ok" /\ ItemsOfKind(p.items, "ent") = [k \in 1..Len(q.ents) |-> Item(q.ents[k])]
Again == \A k \in 1..Len(q.ents) : Item(Loaded(q.ents[k])) = Item(q.ents[k])
(* an edit of one entity leaves the others, all dictionaries and the file alone *)
Apart == [][\A k \in 1..Len(q.ents) : (k <= Len(q'.ents) /\ ~(q.has /\ \A m \in 1..Len(q'.ents) : q'.ents[m] = Loaded(q'.ents[m]) /\ Len(q'.ents) = Len(q.saved)))
              => Cardinality({m \in 1..Len(q.ents) : q.ents[m] # q'.ents[m]}) <= 1]_vars
Snaps == [][\A k \in 1..Len(q.snap) : q'.snap[k] = q.snap[k]]_vars
=============================================================================
