----------------------------- MODULE VectorMC -----------------------------
(* Chains of vector operations; the algebraic laws hold in every state.     *)
EXTENDS Vector, TLC, Json
CONSTANTS Lim, Depth, Rec, Args
VARIABLES v, hist
vars == <<v, hist>>
Small(w) == w.c # "raise" /\ \A k \in 1..3 : w.p[k] >= -Lim /\ w.p[k] <= Lim
Log(op, b, n) == hist' = IF Rec THEN Append(hist, [op |-> op, b |-> b, n |-> n]) ELSE hist
Do(op, b, n) == LET w == Apply(op, v, b, n) IN Small(w) /\ v' = w /\ Log(op, b, n)
None == V("B", <<0, 0, 0>>)
Init == v \in {V("F", <<U, U \div 2, 0>>), V("C", <<U, 2 * U, 0>>)} /\ hist = <<[op |-> "start", b |-> v, n |-> 0]>>
Next == \/ \E k \in 0..3 : Do("rot", None, k)
        \/ \E b \in Args : Do("add", b, 0) \/ Do("sub", b, 0) \/ \E k \in 1..3 : Do("offrot", b, k)
        \/ Do("fine", None, 0) \/ Do("coarse", None, 0) \/ Do("vox", None, 0) \/ Do("entity", None, 0)
        \/ \E n \in {2, -1} : Do("mul", None, n)
        \/ Do("floordiv", None, 4)
Spec == Init /\ [][Next]_vars

RotLaws == /\ Rot(v.p, 4) = v.p
           /\ \A j, k \in 0..3 : Rot(Rot(v.p, j), k) = Rot(v.p, j + k)
           /\ \A k \in 0..3 : Rot(v.p, k)[3] = v.p[3] /\ Rot(Rot(v.p, k), 4 - k) = v.p
           /\ \A b \in Args, k \in 0..3 : Rot(Add(v.p, b.p), k) = Add(Rot(v.p, k), Rot(b.p, k))
AboutLaws == \A b \in Args, j, k \in 0..3 :
               /\ RotAbout(RotAbout(v.p, b.p, j), b.p, k) = RotAbout(v.p, b.p, (j + k) % 4)
               /\ RotAbout(Scale(b.p, -1), b.p, k) = Scale(b.p, -1)
ConvLaws == /\ v.c = "C" => ToCoarse(ToFine(v)) = V("C", FloorBy(v.p, 1))
            /\ v.c = "F" => LET low == FineP(ToCoarse(v)) IN
                 \A k \in 1..3 : low[k] <= v.p[k] /\ v.p[k] < low[k] + 8 * U
MixLaws == \A b \in Args : /\ Plus(v, b) = Plus(b, v)
                           /\ Equal(Minus(Plus(v, b), b), v)
EqLaws == \A b, c \in Args \cup {v} : /\ Equal(b, b) /\ (Equal(b, c) <=> Equal(c, b))
                                      /\ Equal(v, b) /\ Equal(b, c) => Equal(v, c)
OrdLaws == \A b \in Args : b.c = v.c =>
              (IF Before(v.p, b.p) THEN 1 ELSE 0) + (IF Before(b.p, v.p) THEN 1 ELSE 0)
                + (IF Equal(v, b) THEN 1 ELSE 0) = 1
Emit == (Rec /\ Len(hist) = Depth) => PrintT("@@G " \o ToJson([u |-> U, ops |-> hist]))
MCArgs == {V("F", <<U \div 2, U, 0>>), V("C", <<U, 0, -U>>), V("F", <<-3 * U, 0, 2 * U>>), V("C", <<0, -U, U>>)}
=============================================================================
