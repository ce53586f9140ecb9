-------------------------------- MODULE Choice ----------------------------
(* Choosing among weighted items.  Offers are sequences of [v, w]: a value  *)
(* (perhaps offered more than once) and a weight, a whole number of units.  *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Sum(_, _)
Sum(q, n) == IF n = 0 THEN 0 ELSE q[n].w + Sum(q, n - 1)
Total(q) == Sum(q, Len(q))
Range(q) == {q[j] : j \in 1..Len(q)}
Values(q) == {q[j].v : j \in 1..Len(q)}
RECURSIVE SumOf(_, _, _)
SumOf(q, v, n) == IF n = 0 THEN 0 ELSE (IF q[n].v = v THEN q[n].w ELSE 0) + SumOf(q, v, n - 1)
WeightOf(q, v) == SumOf(q, v, Len(q))
(* what may be chosen *)
Choosable(q) == IF Total(q) = 0 THEN Values(q) ELSE {v \in Values(q) : WeightOf(q, v) > 0}
(* the item a throw u in 0..Total - 1 falls on *)
Pick(q, u) == q[CHOOSE j \in 1..Len(q) : Sum(q, j) > u /\ Sum(q, j - 1) <= u].v
(* whether c of n choices are in proportion to weight w out of t, within six standard deviations *)
Down(t) == IF t > 100000 THEN t \div 100000 ELSE 1
Mean(n, w, t) == (n * (w \div Down(t))) \div (t \div Down(t))
Mille(w, t) == (1000 * (w \div Down(t))) \div (t \div Down(t))
Var(n, w, t) == LET p == Mille(w, t) IN (((n * (p + 1)) \div 1000) * (1001 - p)) \div 1000
Abs(x) == IF x < 0 THEN -x ELSE x
Fits(c, n, w, t) == LET m == Mean(n, w, t)  d == Abs(c - m) IN
    IF m < 50 THEN c <= 130 ELSE d <= 3 \/ (d - 3) * (d - 3) <= 36 * (Var(n, w, t) + 1)
(* weights for the next room: those of the table, and a tenth for what it does not list *)
Listed(tab, t) == \E r \in Range(tab) : r.t = t
RoomWeight(tab, t) == IF Listed(tab, t) THEN (CHOOSE r \in Range(tab) : r.t = t).w ELSE 1
RoomOffer(tab, opts) == [j \in 1..Len(opts) |-> [v |-> opts[j].v, w |-> RoomWeight(tab, opts[j].t)]]
Permutation(q, opts) == Len(q) = Len(opts) /\ {q[j] : j \in 1..Len(q)} = {opts[j].v : j \in 1..Len(opts)}
(* flavours: plain likes all cells alike, vertical higher ones better, hole those away from 128, 128 *)
Off(x) == Abs(x - 128)
Further(a, b) == Off(a[1]) > Off(b[1]) /\ Off(a[2]) >= Off(b[2])
Prefers(f, a, b) == CASE f = "vertical" -> a[3] > b[3] [] f = "hole" -> Further(a, b) [] OTHER -> FALSE
Alike(f, a, b) == CASE f = "plain" -> TRUE [] f = "vertical" -> a[3] = b[3] [] OTHER -> a = b
=============================================================================
