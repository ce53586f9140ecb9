----------------------------- MODULE FacesTrace ---------------------------
(* Judges the corners the code gives for the faces of cubes.                *)
EXTENDS Faces, TraceKit
VARIABLES s, i
PointSet(f) == {f[j] : j \in 1..Len(f)}
Clauses(e) ==
    CASE e.op = "cube" ->
        [C29_works |-> e.res = "ok",
         C29_four |-> e.res = "ok" => \A o \in Faces : Len(e.faces[o + 1]) = 4,
         C29_corners |-> e.res = "ok" => \A o \in Faces : PointSet(e.faces[o + 1]) = {Point(e.edges, c) : c \in OfFace(o)},
         C29_order |-> e.res = "ok" => \A o \in Faces : e.faces[o + 1] \in FaceOf(e.edges, o),
         C29_shared |-> e.res = "ok" => \A o, q \in Faces : \A c \in OfFace(o) \cap OfFace(q) :
                            Point(e.edges, c) \in PointSet(e.faces[o + 1]) /\ Point(e.edges, c) \in PointSet(e.faces[q + 1]),
         C29_kept |-> e.after = e.edges]
      [] e.op = "face" ->
        [C29_dimension |-> e.dim = Dimension(e.o), C29_side |-> e.side = Side(e.o), C29_opposite |-> e.opp = Opposite(e.o)]
TInit == s \in 1..Len(Scenarios) /\ i = 0
TNext == LET sc == Scenarios[s] IN
    /\ i < Len(sc.ev) /\ i' = i + 1 /\ s' = s
    /\ Report(sc, i + 1, sc.ev[i + 1].key, Failing(Clauses(sc.ev[i + 1])))
    /\ Done(sc, i + 1)
=============================================================================
