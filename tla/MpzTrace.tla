-------------------------------- MODULE MpzTrace --------------------------
(* Judges how map files are read, edited and written.                       *)
EXTENDS Mpz, TraceKit
VARIABLES s, i, st
(* memory items that are not representable carry bad = TRUE *)
Fine(items) == \A n \in 1..Len(items) : ~items[n].bad
Arity(x) == x.k = "node" => x.n = (IF HasChildren(x.o) THEN 8 ELSE 0)
Same(items, b) == Fine(items) /\ (\A n \in 1..Len(items) : Arity(items[n])) /\ EncAll(items) = b
NoSlots(items) == SelectSeq(items, LAMBDA x : x.k # "slot")
Begin(sc) == IF sc.kind = "mpzfile" THEN Start ELSE IF sc.kind = "mpzedit" THEN MapOf(sc.init) ELSE 0

After(sc, q, e) ==
    IF sc.kind = "mpzfile" THEN
        (IF e.op = "item" THEN IF q.ph = e.x.k THEN Follow(q, e.x, Len(Enc(e.x))) ELSE q
         ELSE IF e.op = "read" THEN Start ELSE q)
    ELSE IF sc.kind = "mpzedit" THEN
        CASE e.op = "setvar" -> SetVar(q, e.x) [] e.op = "delvar" -> DelVar(q, e.name) [] e.op = "addent" -> AddEnt(q, e.x)
          [] e.op = "delent" -> DelEnt(q, e.n) [] e.op = "chgent" -> ChgEnt(q, e.n, e.x) [] e.op = "mru" -> SetMru(q, e.l)
          [] e.op = "root" -> SetRoot(q, e.n, e.x) [] e.op = "sky" -> SetSky(q, e.s) [] e.op = "meta" -> SetMeta(q, e.n, e.v)
          [] e.op = "save" -> AfterSave(q) [] OTHER -> q
    ELSE q

ClFile(sc, q, e) ==
    [C01_reads |-> e.op = "read" => e.res = "ok",
     C01_memory |-> e.op = "item" => /\ q.ph = e.x.k /\ ~e.x.bad /\ Arity(e.x)
                                     /\ LET c == Enc(e.x) IN c = SubSeq(sc.b, q.pos + 1, q.pos + Len(c)),
     C01_whole |-> e.op = "end" => q.ph = "end" /\ e.res = "ok",
     C01_bytes |-> e.op = "end" => e.w = SubSeq(sc.b, 1, q.pos)]
ClEdit(sc, q, e) ==
    LET a == After(sc, q, e) IN
    [C02_edits |-> e.op \in {"setvar", "delvar", "addent", "delent", "chgent", "mru", "root", "sky", "meta"} => e.res = "ok",
     C02_saves |-> e.op = "save" => e.res = "ok",
     C02_content |-> e.op = "save" => e.w = Saved(q),
     C02_nochange |-> e.op = "save" => Same(e.items, Saved(a)),
     C02_again |-> e.op = "save" => e.w2 = e.w,
     C02_loads |-> e.op = "load" => e.res = "ok" /\ Same(e.items, e.w) /\ (e.saved => e.w = Saved(q)),
     C02_counts |-> e.op = "load" => e.items # <<>> /\ e.items[1].nv = Len(ItemsOfKind(e.items, "var"))
                                     /\ e.items[1].meta[2] = Len(ItemsOfKind(e.items, "ent"))]
(* results: 0 rejected, 1 accepted, 2 no end *)
OddSurface(items) == \E n \in 1..Len(items) : items[n].k = "node" /\ \E f \in {items[n].sf[j] : j \in 1..Len(items[n].sf)} : Len(f) = 4 /\ f[3] # 0
(* Python reads a signalling not-a-number as the quiet one (finding C01_memory signalling-nan): damaged files are compared up to that *)
Quiet(v) == LET b == IF v < 0 THEN (v + 2147483647) + 1 ELSE v IN
            IF b \div 8388608 = 255 /\ b % 8388608 \in 1..4194303 THEN v + 4194304 ELSE v
QuietAll(items) == [n \in 1..Len(items) |-> LET x == items[n] IN
    CASE x.k = "var" /\ x.t = 1 -> [x EXCEPT !.i = Quiet(x.i)]
      [] x.k = "ent" -> [x EXCEPT !.o = <<Quiet(x.o[1]), Quiet(x.o[2]), Quiet(x.o[3])>>]
      [] OTHER -> x]
ClBad(sc, e) ==
    [C03_cut |-> e.op = "cuts" => \A n \in 1..Len(e.res) : e.at[n] < sc.len => e.res[n] = 0,
     C03_gzcut |-> e.op = "gzcuts" => \A n \in 1..Len(e.res) : e.at[n] < e.len => e.res[n] = 0,
     C03_gzflip |-> e.op = "gzflip" => \A n \in 1..Len(e.res) : e.res[n] = 0 \/ (e.res[n] = 1 /\ e.same[n]),
     C03_ends |-> e.op = "mut" => e.res # 2,
     C03_unknown |-> e.op = "mut" => LET p == Parse([sc.b EXCEPT ![e.at + 1] = e.v]) IN p.res \notin {"ok", "edited"} => e.res = 0,
     C03_misread |-> (e.op = "mut" /\ e.res = 1) =>
         LET b == [sc.b EXCEPT ![e.at + 1] = e.v]  p == Parse(b)
         IN p.res = "ok" => /\ Fine(e.items)
                            /\ OddSurface(p.items) \/ EncAll(e.items) = EncAll(QuietAll(p.items)),
     C03_edited |-> (e.op = "edited" /\ e.res = 1) => Same(NoSlots(e.items), EncAll(NoSlots(sc.init))),
     C03_notdropped |-> (e.op = "edited" /\ e.res = 1 /\ e.wres = "ok") => e.w = sc.b]
Clauses(sc, q, e) == CASE sc.kind = "mpzfile" -> ClFile(sc, q, e) [] sc.kind = "mpzedit" -> ClEdit(sc, q, e) [] sc.kind = "mpzbad" -> ClBad(sc, e)

TInit == s \in 1..Len(Scenarios) /\ i = 0 /\ st = Begin(Scenarios[s])
TNext == LET sc == Scenarios[s] IN
    /\ i < Len(sc.ev) /\ i' = i + 1 /\ s' = s
    /\ LET e == sc.ev[i + 1] IN
         /\ Report(sc, i + 1, e.key, Failing(Clauses(sc, st, e)))
         /\ st' = After(sc, st, e)
    /\ Done(sc, i + 1)
=============================================================================
