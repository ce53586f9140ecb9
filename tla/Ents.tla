--------------------------------- MODULE Ents -----------------------------
(* Entities of a map: how each kind is made, changed, exported as a         *)
(* dictionary, rebuilt from it, saved and loaded.  An entity is a record    *)
(* t type, o position, a attributes, l links, r reserved bytes; positions   *)
(* are integers in 1/64 of a unit, attributes in quarters.                  *)
EXTENDS Mpz
Names(t) == CASE t = 1 -> <<"radius", "red", "green", "blue", "flare", "flarescale">>
              [] t = 2 -> <<"type", "yaw", "pitch", "roll", "blend", "scale", "flags", "colour", "palette", "palindex", "spinyaw", "spinpitch", "spinroll">>
              [] t = 3 -> <<"team", "yaw", "pitch", "modes", "muts", "id">>
              [] t = 8 -> <<"yaw", "pitch", "red", "green", "blue", "offset", "flare", "flarescale">>
              [] t = 9 -> <<"type", "flags", "modes", "muts", "id">>
              [] t = 13 -> <<"yaw", "pitch", "force", "maxrad", "minrad", "type">>
              [] t = 14 -> <<"team", "yaw", "pitch", "modes", "muts", "id">>
              [] OTHER -> <<>>
TypeName(t) == CASE t = 1 -> "ET_LIGHT" [] t = 2 -> "ET_MAPMODEL" [] t = 3 -> "ET_PLAYERSTART" [] t = 8 -> "ET_SUNLIGHT"
                 [] t = 9 -> "ET_WEAPON" [] t = 13 -> "ET_PUSHER" [] t = 14 -> "ET_AFFINITY" [] OTHER -> ""
WeaponName(w) == CASE w = 0 -> "UNKNOWN" [] w = 2 -> "SWORD" [] w = 3 -> "SHOTGUN" [] w = 4 -> "SMG" [] w = 5 -> "FLAMER" [] w = 6 -> "PLASMA"
                   [] w = 7 -> "ZAPPER" [] w = 8 -> "RIFLE" [] w = 9 -> "GRENADE" [] w = 10 -> "MINE" [] w = 11 -> "ROCKET" [] OTHER -> ""
(* the makers of entities: type and default attributes; the first attribute of Grenade and Shotgun is fixed *)
KindNames == <<"Light", "MapModel", "PlayerSpawn", "Sunlight", "Weapon", "Grenade", "Shotgun", "Pusher", "TeamFlag">>
TypeOf(kind) == CASE kind = "Light" -> 1 [] kind = "MapModel" -> 2 [] kind = "PlayerSpawn" -> 3 [] kind = "Sunlight" -> 8
                  [] kind = "Weapon" -> 9 [] kind = "Grenade" -> 9 [] kind = "Shotgun" -> 9 [] kind = "Pusher" -> 13 [] kind = "TeamFlag" -> 14
Defaults(kind) == CASE kind = "Light" -> <<64, 255, 255, 255, 0, 0>> [] kind = "MapModel" -> [j \in 1..13 |-> 0] [] kind = "PlayerSpawn" -> [j \in 1..6 |-> 0]
                    [] kind = "Sunlight" -> <<0, 0, 255, 255, 255, 45, 0, 0>> [] kind = "Weapon" -> [j \in 1..5 |-> 0] [] kind = "Grenade" -> <<9, 0, 0, 0, 0>>
                    [] kind = "Shotgun" -> <<3, 0, 0, 0, 0>> [] kind = "Pusher" -> <<0, 45, 150, 0, 0, 0>> [] kind = "TeamFlag" -> <<1, 0, 0, 2, 0, 0>>
FixedFirst(kind) == kind \in {"Grenade", "Shotgun"}

Place(pk, p) == [j \in 1..3 |-> IF pk = "coarse" THEN 32 * p[j] ELSE IF pk = "fine" THEN 4 * p[j] ELSE 0]
RECURSIVE With(_, _, _)
With(a, given, n) == IF n > Len(given) THEN a ELSE With([a EXCEPT ![given[n][1]] = given[n][2]], given, n + 1)
(* given lists <<attribute number, value>>; links and reserved bytes are <<>> when left to their defaults, else <<list>> *)
Opt(o, d) == IF o = <<>> THEN d ELSE o[1]
Make(x) == IF x.kind = "Entity" THEN [t |-> x.t, o |-> Place(x.pk, x.p), a |-> x.a, l |-> Opt(x.l, <<>>), r |-> Opt(x.r, <<0, 0, 0>>)]
           ELSE [t |-> TypeOf(x.kind), o |-> Place(x.pk, x.p), a |-> With([j \in 1..Len(Defaults(x.kind)) |-> 4 * Defaults(x.kind)[j]], x.g, 1),
                 l |-> Opt(x.l, <<>>), r |-> Opt(x.r, <<0, 0, 0>>)]
LegalMake(x) == x.kind = "Entity" => /\ x.t \in EntTypes /\ Len(x.a) = EntAttrs(x.t)
                                     /\ x.t = 9 => \E w \in Weapons : x.a[1] = 4 * w
(* single precision numbers: the bits of n/64 *)
RECURSIVE Log2(_)
Log2(n) == IF n < 2 THEN 0 ELSE 1 + Log2(n \div 2)
Bits(n) == LET m == IF n < 0 THEN -n ELSE n  e == Log2(m)
               v == (e + 121) * 8388608 + (m - 2 ^ e) * 2 ^ (23 - e)
           IN IF n = 0 THEN 0 ELSE IF n < 0 THEN v - 2147483647 - 1 ELSE v
Whole(q) == IF q >= 0 THEN q \div 4 ELSE -((-q) \div 4)
Item(e) == [k |-> "ent", o |-> [j \in 1..3 |-> Bits(e.o[j])], t |-> e.t, res |-> e.r, attrs |-> [j \in 1..Len(e.a) |-> Whole(e.a[j])], links |-> e.l]
Loaded(e) == [e EXCEPT !.a = [j \in 1..Len(e.a) |-> 4 * Whole(e.a[j])]]
(* a small map: a cube of eight empty octants *)
Base == <<[k |-> "head", magic |-> <<77, 65, 80, 90>>, ver |-> 45, hs |-> 44, meta |-> <<64, 0, 0, 0, 0, 0, 229, 1>>, gi |-> <<102, 112, 115>>, nv |-> 0],
          [k |-> "mru", l |-> <<>>]>>
        \o [j \in 1..8 |-> [k |-> "node", o |-> 1, e |-> <<>>, tex |-> <<2, 2, 2, 2, 2, 2>>, mat |-> -1, mer |-> -1, sm |-> -1, tv |-> -1, sf |-> <<>>, n |-> 0]]
FileOf(ents) == Saved([MapOf(Base) EXCEPT !.ents = [n \in 1..Len(ents) |-> Item(ents[n])]])

(* the dictionary form: a list of <<name, value>> in order; weapons carry the name of their weapon *)
DictOf(e) == [type |-> TypeName(e.t), pos |-> e.o, order |-> Names(e.t),
              w |-> IF e.t = 9 THEN WeaponName(Whole(e.a[1])) ELSE "",
              val |-> [j \in 1..Len(e.a) |-> IF e.t = 9 /\ j = 1 THEN 0 ELSE e.a[j]], l |-> e.l, r |-> e.r]
FromDict(d) == LET t == CHOOSE t \in EntTypes : TypeName(t) = d.type IN
               [t |-> t, o |-> d.pos, l |-> d.l, r |-> d.r,
                a |-> [j \in 1..Len(d.val) |-> IF t = 9 /\ j = 1 THEN 4 * (CHOOSE w \in Weapons : WeaponName(w) = d.w) ELSE d.val[j]]]

(* a history: the entities of a map, dictionaries taken of them and the file last saved *)
Start0 == [ents |-> <<>>, snap |-> <<>>, saved |-> <<>>, has |-> FALSE]
Step(q, x) ==
    CASE x.op = "new" -> IF LegalMake(x) THEN [q EXCEPT !.ents = Append(@, Make(x))] ELSE q
      [] x.op = "pair" -> IF LegalMake(x) THEN [q EXCEPT !.ents = @ \o <<Make(x), Make(x)>>] ELSE q
      [] x.op = "attr" -> [q EXCEPT !.ents[x.n].a[x.j] = x.v]
      [] x.op = "link" -> [q EXCEPT !.ents[x.n].l = Append(@, x.v)]
      [] x.op = "res" -> [q EXCEPT !.ents[x.n].r[x.j] = x.v]
      [] x.op = "move" -> [q EXCEPT !.ents[x.n].o = [j \in 1..3 |-> 4 * x.p[j]]]
      [] x.op = "snap" -> [q EXCEPT !.snap = Append(@, DictOf(q.ents[x.n]))]
      [] x.op = "rebuild" -> [q EXCEPT !.ents = Append(@, FromDict(q.snap[x.n]))]
      [] x.op = "save" -> [q EXCEPT !.saved = q.ents, !.has = TRUE]
      [] x.op = "load" -> IF q.has THEN [q EXCEPT !.ents = [n \in 1..Len(q.saved) |-> Loaded(q.saved[n])]] ELSE q
      [] OTHER -> q
=============================================================================
