------------------------------- MODULE WalkMC ------------------------------
(* Rooms of one cell with doors to the west and to the east, put side by     *)
(* side.  When both doors of each room are joined inside of it, and the      *)
(* openings that are joined meet, the whole row can be walked.               *)
EXTENDS Walk
CONSTANTS S, W, H, Blocks, MaxLen
VARIABLES row, joined
vars == <<row, joined>>
G == [s |-> S, w |-> W, h |-> H]
Points == {<<x, y, z>> : x, y, z \in 0..(S - 1)}
AsCols(B) == [c \in {<<p[1], p[2]>> : p \in B} |->
                LET zs == {p[3] : p \in {q \in B : q[1] = c[1] /\ q[2] = c[2]}}
                    f[z \in 0..S] == IF z = S THEN <<>> ELSE IF z \in zs THEN <<<<z, z>>>> \o f[z + 1] ELSE f[z + 1]
                IN f[0]]
Room(B) == [cells |-> {<<0, 0, 0>>}, cols |-> TLCEval(AsCols(B))]
RECURSIVE Grow(_, _)
Grow(F, P) == LET N == TLCEval({q \in F \ P : \E p \in P : Step(p, q)}) IN IF N = {} THEN P ELSE Grow(F, P \cup N)
Free(r) == TLCEval({p \in Points : Fits(G, r, p)})
DoorE == <<<<0, 0, 0>>, East>>   DoorW == <<<<0, 0, 0>>, West>>
(* the parts of a room that both doors are joined to                         *)
Part(r) == UNION {Q \in {Grow(Free(r), {p}) : p \in Free(r)} : Opening(G, DoorE, Q) # {} /\ Opening(G, DoorW, Q) # {}}
Few == {B \in SUBSET Points : Cardinality(B) <= Blocks}
One(r) == \A p \in Part(r) : Part(r) = Grow(Free(r), {p})
Good == TLCEval({B \in Few : LET r == Room(B) IN Part(r) # {} /\ One(r)})
Info == TLCEval([B \in Good |-> LET r == Room(B) IN [part |-> Part(r), e |-> <<Opening(G, DoorE, Part(r)), Layer(G, r, DoorE)>>, w |-> <<Opening(G, DoorW, Part(r)), Layer(G, r, DoorW)>>]])
Shift(P, n) == {<<p[1] + (S * n), p[2], p[3]>> : p \in P}
(* `joined`: what can be walked to in the whole row from the first room      *)
Whole(q) == LET B == UNION {Shift(q[k], k - 1) : k \in 1..Len(q)}
                r == [cells |-> {<<k - 1, 0, 0>> : k \in 1..Len(q)}, cols |-> TLCEval(AsCols(B))]
            IN TLCEval({p \in {<<x, y, z>> : x \in 0..((S * Len(q)) - 1), y, z \in 0..(S - 1)} : Fits(G, r, p)})
Init == \E B \in DOMAIN Info : row = <<B>> /\ joined = Info[B].part
Add(B) == LET n == Len(row) IN
    /\ n < MaxLen /\ Meet(G, Info[row[n]].e, Info[B].w)
    /\ row' = Append(row, B) /\ joined' = Grow(Whole(row'), joined)
Next == \E B \in DOMAIN Info : Add(B)
Spec == Init /\ [][Next]_vars
(* every room of the row can be walked to and through                        *)
Through == \A k \in 1..Len(row) : Shift(Info[row[k]].part, k - 1) \subseteq joined
(* openings can be compared from both sides                                  *)
Mutual == \A B \in {row[k] : k \in 1..Len(row)} : \A C \in {row[Len(row)]} : Meet(G, Info[B].e, Info[C].w) = Meet(G, Info[C].w, Info[B].e)
(* nothing that could be walked is refused                                   *)
Exact == Len(row) = 1 => \A B \in DOMAIN Info : ~Meet(G, Info[row[1]].e, Info[B].w) =>
             Shift(Info[B].part, 1) \cap Grow(Whole(Append(row, B)), joined) = {}
=============================================================================
