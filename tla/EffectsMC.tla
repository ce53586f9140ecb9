------------------------------ MODULE EffectsMC ---------------------------
(* Histories of effects on a tiny world.                                     *)
EXTENDS Effects, TLC, Json
CONSTANTS Size, MaxSteps, Rec, Depth, Fns
VARIABLES w, top, n, hist, last
vars == <<w, top, n, hist, last>>
MaxZ(pts) == IF pts = {} THEN 0 ELSE CHOOSE m \in {p[3] : p \in pts} : \A p \in pts : p[3] <= m
Up(v) == IF MaxZ(Pts(v)) > top THEN MaxZ(Pts(v)) ELSE top
Log(op, a, f) == hist' = IF Rec THEN Append(hist, [op |-> op, a |-> a, f |-> f]) ELSE hist
Init == w \in {{}, {<<<<0, 1, 2>>, 7>>, <<<<1, 1, 1>>, 5>>}, {<<<<Size - 1, 0, 0>>, 6>>}} /\ top = MaxZ(Pts(w)) /\ n = 0
        /\ hist = <<[op |-> "start", a |-> IF w = {} THEN 0 ELSE Cardinality(w), f |-> ""]>> /\ last = [op |-> "start", before |-> w]
To(v, op, a, f) == /\ n < MaxSteps /\ n' = n + 1 /\ w' = v /\ top' = Up(v) /\ Log(op, a, f)
                   /\ last' = [op |-> op, before |-> w]
Grid(a) == To(AddMissing(w, GridPts(Size, top, a)), "grid", a, "")
BoxE(h) == To(Fill(w, BoxPts(Size, h)), "box", h, "")
Outline(h) == To(Fill(w, OutlinePts(Size, h)), "outline", h, "")
Decay(f) == \E keep \in {0, 1} :
              To({r \in w : r[1] \in Slab(Size, top) => Fate(f, r[1]) > IF keep = 1 THEN 0 ELSE 1}, "decay", 0, f)
Growth(f) == To(AddMissing(w, {p \in Slab(Size, top) : Fate(f, p) = 0}), "growth", 0, f)
Next == \/ \E a \in {2, 3} : Grid(a) \/ \E h \in {1, Size} : BoxE(h) \/ Outline(h)
        \/ \E f \in Fns : Decay(f) \/ Growth(f)
Spec == Init /\ [][Next]_vars
OnePer == Cardinality(Pts(w)) = Cardinality(w)
Monotone == /\ last.op \in {"grid", "growth"} => last.before \subseteq w
            /\ last.op = "decay" => w \subseteq last.before
            /\ last.op \in {"box", "outline"} => Pts(last.before) \subseteq Pts(w)
Boxed == last.op = "box" => \A x, y \in 0..(Size - 1) : <<x, y, 0>> \in Pts(w)
Nested == OutlinePts(Size, Size) \subseteq BoxPts(Size, Size)
          /\ Cardinality(OutlinePts(Size, Size)) = 12 * (Size - 2) + 8
          /\ Cardinality(BoxPts(Size, Size)) = Size * Size * Size - (Size - 2) * (Size - 2) * (Size - 2)
InWorld == \A p \in Pts(w) : \A k \in 1..3 : 0 <= p[k] /\ p[k] < Size
Emit == (Rec /\ Len(hist) = Depth) => PrintT("@@G " \o ToJson([size |-> Size, ops |-> hist]))
MCFns == {"zero", "checker", "one"}
GenFns == {"zero", "checker", "one", "half", "neg", "low", "skew", "two"}
=============================================================================
