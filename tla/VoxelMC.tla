----------------------------- MODULE VoxelMC -----------------------------
(* Histories of a voxel world: set / delete / export as an octree.         *)
EXTENDS Voxel, TLC, Json
CONSTANTS Size, Pts, Vals, Depth, Rec
VARIABLES w, ext, ever, hist
vars == <<w, ext, ever, hist>>

Log(op, p, v) == hist' = IF Rec THEN Append(hist, [op |-> op, p |-> p, v |-> v]) ELSE hist
Init == w = EmptyWorld /\ ext = NoExtent(Size) /\ ever = {} /\ hist = <<>>
Set(p, v) == /\ w' = Put(w, p, v) /\ ext' = Grow(ext, p) /\ ever' = ever \cup {p}
             /\ Log("set", p, v)
Remove(p) == /\ w' = Del(w, p) /\ UNCHANGED <<ext, ever>> /\ Log("del", p, 0)
(* exporting and looking up leave the world alone *)
Export == /\ UNCHANGED <<w, ext, ever>> /\ Log("oct", <<0, 0, 0>>, 0)
Next == \/ \E p \in Pts, v \in Vals : Set(p, v)
        \/ \E p \in Pts : Remove(p)
        \/ Export
Spec == Init /\ [][Next]_vars

(* the extent encloses everything ever set, tightly, and never shrinks *)
ExtentOK == /\ \A p \in ever : \A k \in 1..3 : ext.min[k] <= p[k] /\ p[k] <= ext.max[k]
            /\ \A k \in 1..3 : ext.max[k] = 0 \/ \E p \in ever : p[k] = ext.max[k]
            /\ \A k \in 1..3 : ext.min[k] = Size \/ \E p \in ever : p[k] = ext.min[k]
WorldOK == Points(w) \subseteq ever /\ Cardinality(Points(w)) = Cardinality(w)
(* Build and the declarative description of the octree agree *)
Fresh == Build(w, <<0, 0, 0>>, Size)
LookupOK == \A r \in InRange(w, Size) : Lookup(Fresh, Path(r[1], Size)) = <<"voxel", r[2]>>
NothingElse == CountVoxels(Fresh) = Cardinality(InRange(w, Size))
CompactOK == Compact(Fresh)
NodesOK == /\ \A q \in InnerNodes(w, Size) : Lookup(Fresh, q)[1] = "node"
           /\ Fresh[1] = "node" => \A q \in EmptyNodes(w, Size) : Lookup(Fresh, q) = <<"none">>
Emit == (Rec /\ Len(hist) = Depth) => PrintT("@@G " \o ToJson([size |-> Size, ops |-> hist]))
=============================================================================
