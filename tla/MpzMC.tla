-------------------------------- MODULE MpzMC -----------------------------
(* Design model of the format and of editing maps: small maps are built     *)
(* item by item, edited, saved and loaded.                                  *)
EXTENDS Mpz
CONSTANTS MaxEdits, MaxRich, Counts, RichAt    \* edits per history, nodes that are not plain, counts, where such nodes stand (nodes left)
VARIABLES items, st, map, edits, last
vars == <<items, st, map, edits, last>>

HeadItem(nv, ne, ns) == [k |-> "head", magic |-> <<77, 65, 80, 90>>, ver |-> 43, hs |-> -2, meta |-> <<16, ne, 0, 300, 0, ns, 0, 0>>, gi |-> <<102, 112, 115>>, nv |-> nv]
Vars == {[k |-> "var", name |-> <<>>, t |-> 2, i |-> 0, s |-> <<0, 65>>], [k |-> "var", name |-> <<200>>, t |-> 1, i |-> -1, s |-> <<>>],
         [k |-> "var", name |-> <<200>>, t |-> 0, i |-> 70000, s |-> <<>>], [k |-> "var", name |-> <<200>>, t |-> 2, i |-> 0, s |-> <<>>]}
Ents == {[k |-> "ent", o |-> <<0, -1, 65536>>, t |-> 9, res |-> <<0, 255, 1>>, attrs |-> <<11, 0, -5, 0, 0>>, links |-> <<>>],
         [k |-> "ent", o |-> <<5, 5, 5>>, t |-> 1, res |-> <<0, 0, 0>>, attrs |-> <<1, 2, 3, 4, 5, 6>>, links |-> <<7, 0>>]}
Node(o) == [k |-> "node", o |-> o, e |-> IF Kind(o) = 3 THEN [j \in 1..12 |-> j] ELSE <<>>,
            tex |-> IF Kind(o) = 0 THEN <<>> ELSE <<0, 1, 65535, 256, 7, 128>>,
            mat |-> IF Kind(o) # 0 /\ Bit(o, 64) THEN 513 ELSE -1, mer |-> IF Kind(o) # 0 /\ Bit(o, 128) THEN 63 ELSE -1,
            sm |-> IF Kind(o) # 0 /\ Bit(o, 32) THEN 36 ELSE -1, tv |-> IF Kind(o) # 0 /\ Bit(o, 32) THEN 0 ELSE -1,
            sf |-> IF Kind(o) # 0 /\ Bit(o, 32) THEN <<<<>>, <<>>, <<2, 0, 0, 32>>, <<>>, <<>>, <<1, 3, 0, 112>>>> ELSE <<>>,
            n |-> IF HasChildren(o) THEN 8 ELSE 0]
Plain == Node(1)
Rich == {Node(o) : o \in {0, 2, 3, 35, 98, 4, 228, 131}}
Riches(s) == Cardinality({n \in 1..Len(s) : s[n].k = "node" /\ s[n] # Plain})

Init == items = <<>> /\ st = Start /\ map = <<>> /\ edits = 0 /\ last = ""
Take(x) == items' = Append(items, x) /\ st' = Follow(st, x, Len(Enc(x))) /\ UNCHANGED <<map, edits, last>>
Build == st.ph # "end" /\
    CASE st.ph = "head" -> \E nv, ne, ns \in Counts : Take(HeadItem(nv, ne, ns))
      [] st.ph = "var" -> \E v \in Vars : Take(v)
      [] st.ph = "mru" -> \E l \in {<<>>, <<300, 2>>} : Take([k |-> "mru", l |-> l])
      [] st.ph = "ent" -> \E x \in Ents : Take(x)
      [] st.ph = "slot" -> Take([k |-> "slot", c |-> -st.left, raw |-> <<>>])
      [] st.ph = "node" -> \/ Take(Plain)
                           \/ /\ Riches(items) < MaxRich /\ st.left \in RichAt
                              /\ \E x \in Rich : Take(x)
Finish == st.ph = "end" /\ map = <<>> /\ map' = <<MapOf(items)>> /\ UNCHANGED <<items, st, edits, last>>
Edit == /\ map # <<>> /\ edits < MaxEdits
        /\ edits' = edits + 1 /\ UNCHANGED <<items, st>>
        /\ LET m == map[1] IN
           \E q \in {SetVar(m, v) : v \in Vars} \cup {DelVar(m, <<200>>)} \cup {AddEnt(m, x) : x \in Ents}
                    \cup {DelEnt(m, n) : n \in 1..Len(m.ents)} \cup {SetMru(m, <<9>>), SetMeta(m, 8, 77), SetSky(m, <<104, 47>>)}
                    \cup {SetRoot(m, n, x) : n \in {1, 4, 8}, x \in {<<Plain>>, <<Node(35)>>, <<Node(0)>> \o [j \in 1..8 |-> Node(2)]}} :
              /\ map' = <<q>> /\ last' = "edit"
Save == map # <<>> /\ map' = <<AfterSave(map[1])>> /\ last' = "save" /\ UNCHANGED <<items, st, edits>>
Next == Build \/ Finish \/ Edit \/ Save
Spec == Init /\ [][Next]_vars

(* whatever is built is read back, and breaking it off anywhere is noticed  *)
ReadBack == map # <<>> => LET p == Parse(Saved(map[1])) IN p.res = "ok" /\ p.items = ItemsOf(map[1]) /\ p.pos = Len(Saved(map[1]))
CutNoticed == (map # <<>> /\ edits = 0) => LET b == Saved(map[1]) IN \A n \in 0..(Len(b) - 1) : Parse(SubSeq(b, 1, n)).res # "ok"
Counted == map # <<>> => LET h == ItemsOf(map[1])[1] IN h.nv = Len(map[1].vars) /\ h.meta[2] = Len(map[1].ents)
SaveStable == last = "save" => Saved(AfterSave(map[1])) = Saved(map[1]) /\ map[1].head = HeadOf(map[1])
BuiltFirst == (map # <<>> /\ edits = 0) => Saved(map[1]) = EncAll(items)
VarsUnique == map # <<>> => \A a, b \in 1..Len(map[1].vars) : map[1].vars[a].name = map[1].vars[b].name => a = b
EightRoots == map # <<>> => SkipNodes(map[1].nodes, 1, 8) = Len(map[1].nodes) + 1
(* unknown tags are noticed wherever they stand *)
Unknown == (map # <<>> /\ edits = 0) =>
    \A n \in 1..Len(items) :
        LET x == items[n]
            bad == CASE x.k = "head" -> {[x EXCEPT !.magic[2] = 97]}
                     [] x.k = "var" -> {[x EXCEPT !.t = 3], [x EXCEPT !.t = -1]}
                     [] x.k = "ent" -> {[x EXCEPT !.t = 0], [x EXCEPT !.t = 18], [x EXCEPT !.t = 4]}
                     [] x.k = "node" -> {[x EXCEPT !.o = 5], [x EXCEPT !.o = 7], [x EXCEPT !.o = 38]}
                     [] OTHER -> {}
        IN \A y \in bad : Parse(EncAll(SubSeq(items, 1, n - 1)) \o (IF y.k = "node" THEN <<y.o>> ELSE Enc(y)) \o EncAll(SubSeq(items, n + 1, Len(items)))).res # "ok"
=============================================================================
