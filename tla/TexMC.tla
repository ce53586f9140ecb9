------------------------------- MODULE TexMC -------------------------------
(* Histories of texture requests to several managers and of emitted files.   *)
EXTENDS Tex, Json
CONSTANTS Names, Managers, Maps, MaxSteps, Rec, Depth
VARIABLES atlas, extra, file, n, hist
vars == <<atlas, extra, file, n, hist>>
Log(op, m, k, f) == /\ n < MaxSteps /\ n' = n + 1
                    /\ hist' = IF Rec THEN Append(hist, [op |-> op, m |-> m, k |-> k, f |-> f]) ELSE hist
Init == /\ atlas = [m \in Managers |-> NewAtlas] /\ extra = [m \in Maps |-> <<>>] /\ file = <<>> /\ n = 0 /\ hist = <<>>
Get(m, k) == atlas' = [atlas EXCEPT ![m] = Ask(@, k)] /\ UNCHANGED <<extra, file>> /\ Log("get", m, k, <<>>)
(* a request that names no texture is refused *)
Bad(m) == UNCHANGED <<atlas, extra, file>> /\ Log("bad", m, "", <<>>)
(* the manager picks one of the textures of a category *)
Cat(m) == /\ \E k \in Names : atlas' = [atlas EXCEPT ![m] = Ask(@, k)]
          /\ UNCHANGED <<extra, file>> /\ Log("cat", m, "", <<>>)
Flav(p, fs) == /\ extra' = [extra EXCEPT ![p] = @ \o Flavours(fs)] /\ UNCHANGED <<atlas, file>> /\ Log("flavour", p, "", fs)
Emitted(m, p) == /\ file' = Config(atlas[m], extra[p]) /\ UNCHANGED <<atlas, extra>> /\ Log("emit", m, "", <<>>)
FlavourLists == {<<>>, <<"maliwan">>, <<"crushed_blacks", "space_station">>, <<"space_station", "maliwan">>}
Next == \/ \E m \in Managers : (\E k \in Names : Get(m, k)) \/ Bad(m) \/ Cat(m)
        \/ \E p \in Maps, fs \in FlavourLists : Flav(p, fs)
        \/ \E m \in Managers, p \in Maps : Emitted(m, p)
Spec == Init /\ [][Next]_vars
DenseAndUnique == \A m \in Managers :
    /\ Injective(atlas[m]) /\ Number(atlas[m], "n:sky") = 0 /\ Number(atlas[m], "n:default") = 1
    /\ {Number(atlas[m], k) : k \in Elems(atlas[m])} = 0..(Len(atlas[m]) - 1)
    /\ \A k \in Elems(atlas[m]) : atlas[m][Number(atlas[m], k) + 1] = k
FileKnown == file = <<>> \/ \E m \in Managers, p \in Maps : \E l \in 2..Len(atlas[m]), x \in 0..Len(extra[p]) :
                file = Config(SubSeq(atlas[m], 1, l), SubSeq(extra[p], 1, x))
Stable == [][\A m \in Managers : IsPrefix(atlas[m], atlas'[m]) /\ Len(atlas'[m]) <= Len(atlas[m]) + 1]_vars
Independent == [][Cardinality({m \in Managers : atlas'[m] # atlas[m]}) + Cardinality({p \in Maps : extra'[p] # extra[p]}) <= 1]_vars
HueLaw == \A h \in Hues : (\E j \in 1..3 : h[j] = 32) /\ (\E j \in 1..3 : h[j] = 0)
ASSUME HueLaw
Emit == (Rec /\ n = Depth) => PrintT("@@G " \o ToJson([ops |-> hist]))
MCNames == {"n:a", "n:b", "c:0.5,0.5,0.5"}
GenNames == {"n:sky", "n:default", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
=============================================================================
