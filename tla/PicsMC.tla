------------------------------- MODULE PicsMC -------------------------------
(* Histories of maps made one after another: textures are requested from     *)
(* managers, maps are written (with the pictures of their textures), installed*)
(* pictures change, skies are set up.                                        *)
EXTENDS Pics, Json
CONSTANTS Keys, Managers, Skies, MaxSteps, Rec, Depth
VARIABLES used, store, folder, sky, made, n, hist
vars == <<used, store, folder, sky, made, n, hist>>
Log(op, m, k) == /\ n < MaxSteps /\ n' = n + 1
                 /\ hist' = IF Rec THEN Append(hist, [op |-> op, m |-> m, k |-> k]) ELSE hist
(* in the model texture k has the pictures k and k2, and all share "z"       *)
PicsOf == [k \in Keys |-> {k, k \o "2", "z"}]
AllPics == Needs(PicsOf, Keys)
SkyAll == UNION {SkyPics(x) : x \in Skies}
None == [p \in {} |-> 0]
Init == /\ used = [m \in Managers |-> {}] /\ store = [p \in AllPics \cup SkyAll |-> 0]
        /\ folder = None /\ sky = None /\ made = {} /\ n = 0 /\ hist = <<>>
Ask(m, k) == used' = [used EXCEPT ![m] = @ \cup {k}] /\ UNCHANGED <<store, folder, sky, made>> /\ Log("ask", m, k)
Paint(p) == store' = [store EXCEPT ![p] = 1 - @] /\ UNCHANGED <<used, folder, sky, made>> /\ Log("paint", 1, p)
Output(m) == /\ folder' = Put(folder, store, Needs(PicsOf, used[m])) /\ made' = made \cup {used[m]}
             /\ UNCHANGED <<used, store, sky>> /\ Log("output", m, "")
Sky(x) == sky' = Put(sky, store, SkyPics(x)) /\ UNCHANGED <<used, store, folder, made>> /\ Log("sky", 1, x)
Next == \/ \E m \in Managers : (\E k \in Keys : Ask(m, k)) \/ Output(m)
        \/ \E x \in Skies : Sky(x)
        \/ (IF Rec THEN Paint("z") ELSE \E p \in AllPics : Paint(p))
Spec == Init /\ [][Next]_vars
(* every map made so far finds all of its pictures *)
Served == \A u \in made : Needs(PicsOf, u) \subseteq DOMAIN folder
NothingElse == /\ DOMAIN folder \subseteq Needs(PicsOf, UNION made)
               /\ \A x \in Skies : SkyPics(x) \cap DOMAIN sky # {} => SkyPics(x) \subseteq DOMAIN sky
Kept == [][DOMAIN folder \subseteq DOMAIN folder' /\ DOMAIN sky \subseteq DOMAIN sky']_vars
Fresh == [][\A m \in Managers : (made' # made \/ folder' # folder) => \E w \in Managers : \A p \in Needs(PicsOf, used[w]) : p \in DOMAIN folder' /\ folder'[p] = store[p]]_vars
Emit == (Rec /\ n = Depth) => PrintT("@@G " \o ToJson([ops |-> hist]))
GenKeys == {"0", "1", "2", "3", "4", "5", "6", "7"}
=============================================================================
