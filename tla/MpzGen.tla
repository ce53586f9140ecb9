-------------------------------- MODULE MpzGen ----------------------------
(* Generates map files item by item, with edits to make to them. One step   *)
(* draws random bytes, the next turns them into an item.                    *)
EXTENDS Mpz, TLC, Json
CONSTANTS MaxNodes, Edited, Finite         \* nodes before only leaves follow; whether slot records may carry edits, floats are finite (JSON)
VARIABLES items, st, rnd, stk, ops
vars == <<items, st, rnd, stk, ops>>
R(i) == rnd[((i - 1) % 96) + 1]
(* a byte, 16 bit and 32 bit number from the random bytes from i on; edge values are frequent *)
Pool8 == <<0, 1, 2, 35, 127, 128, 129, 255>>
Pool16 == <<0, 1, 2, 255, 256, 257, 32767, 32768, 65534, 65535>>
Pool32 == <<0, 1, -1, 2, 45, 255, 256, -256, 65535, 65536, -65537, 2147483647, -2147483647, 16777216, -300>>
P8(i) == IF R(i) % 2 = 0 THEN Pool8[((R(i) \div 2) % 8) + 1] ELSE R(i + 1)
P16(i) == IF R(i) % 2 = 0 THEN Pool16[((R(i) \div 2) % 10) + 1] ELSE R(i + 1) + 256 * R(i + 2)
P32(i) == IF R(i) % 2 = 0 THEN Pool32[((R(i) \div 2) % 15) + 1]
          ELSE R(i + 1) + 256 * R(i + 2) + 65536 * R(i + 3) + 16777216 * (IF R(i + 4) > 127 THEN R(i + 4) - 256 ELSE R(i + 4))
(* float bit patterns: finite numbers, infinities, quiet not-a-numbers (signalling ones: a scenario of their own, see C01) *)
F32(i) == CASE R(i) % 8 = 0 -> 0 [] R(i) % 8 = 1 -> 1151336448 + 65536 * (R(i + 1) % 64) [] R(i) % 8 = 2 -> -2147483647 - 1
            [] ~Finite /\ R(i) = 11 -> 2139095040 [] ~Finite /\ R(i) = 19 -> -8388608 [] ~Finite /\ R(i) = 27 -> 2143289344 + R(i + 1) + 256 * R(i + 2)
            [] ~Finite /\ R(i) = 35 -> -4194304 + R(i + 1) + 65536 * (R(i + 2) % 64)
            [] OTHER -> R(i + 1) + 256 * R(i + 2) + 65536 * (R(i + 3) % 128) + 16777216 * (R(i + 4) % 127)
                        - (IF R(i + 5) > 200 THEN 2147483647 ELSE 0)
PS8(i, n) == [j \in 1..n |-> P8(i + 2 * j)]
PS16(i, n) == [j \in 1..n |-> P16(i + 3 * j)]
PS32(i, n) == [j \in 1..n |-> P32(i + 5 * j)]
Small(i, n) == R(i) % n
Sizes == <<16, 32, 64, 256, 1024, 4096, 8192>>
HeadItem == [k |-> "head", magic |-> IF Small(1, 8) = 0 THEN <<66, 70, 71, 90>> ELSE <<77, 65, 80, 90>>, ver |-> P32(2), hs |-> P32(7),
          meta |-> <<Sizes[Small(12, 7) + 1], Small(13, 5), P32(14), P32(20), P32(25), Small(30, 4) * (IF Small(31, 9) = 0 THEN 301 ELSE 1), P32(32), P32(38)>>,
          gi |-> PS8(44, 3), nv |-> Small(60, 5)]
VarItem == LET t == Small(1, 3) IN
           [k |-> "var", name |-> <<st.left>> \o PS8(2, IF Small(30, 9) = 0 THEN 40 ELSE Small(30, 5)), t |-> t,
            i |-> IF t = 0 THEN P32(31) ELSE IF t = 1 THEN F32(31) ELSE 0,
            s |-> IF t = 2 THEN PS8(40, IF Small(60, 7) = 0 THEN 45 ELSE Small(60, 6)) ELSE <<>>]
EntKinds == <<1, 2, 3, 8, 9, 13, 14>>
EntItem == LET t == EntKinds[Small(1, 7) + 1]
               a == PS32(20, EntAttrs(t))
           IN [k |-> "ent", o |-> <<F32(2), F32(8), F32(14)>>, t |-> t, res |-> PS8(70, 3),
               attrs |-> IF t = 9 THEN <<(<<0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11>>)[Small(77, 11) + 1]>> \o SubSeq(a, 2, 5) ELSE a,
               links |-> PS32(78, Small(90, 4))]
(* a slot record: skip of n slots, or an edit with the fields its bits announce *)
RECURSIVE Params(_)
Params(np) == IF np = 0 THEN <<>>
              ELSE H(Small(6, 4) * np) \o PS8(5, Small(6, 4) * np) \o PS8(20, 16) \o (IF Small(4, 2) = 1 THEN PS8(40, 8) ELSE <<>>) \o Params(np - 1)
EditRaw(c) == B(-1) \o (IF Bit(c, 1) THEN LET np == Small(3, 2) + 1 IN H(np + 32768 * Small(4, 2)) \o
                            Params(np) ELSE <<>>)
              \o (IF Bit(c, 2) THEN PS8(50, 4) ELSE <<>>) \o (IF Bit(c, 4) THEN PS8(52, 4) ELSE <<>>)
              \o (IF Bit(c, 8) THEN PS8(54, 8) ELSE <<>>) \o (IF Bit(c, 16) THEN PS8(56, 8) ELSE <<>>)
              \o (IF Bit(c, 32) THEN PS8(58, 4) ELSE <<>>) \o (IF Bit(c, 64) THEN PS8(60, 8) ELSE <<>>)
              \o (IF Bit(c, 128) THEN PS8(62, 12) ELSE <<>>) \o (IF Bit(c, 256) THEN PS8(64, 8) ELSE <<>>)
              \o (IF Bit(c, 512) THEN PS8(66, 4) ELSE <<>>)
SlotItem == IF Edited /\ Small(1, 3) > 0 THEN LET c == R(2) + 256 * (R(3) % 4) IN [k |-> "slot", c |-> c, raw |-> EditRaw(c)]
            ELSE [k |-> "slot", c |-> -(IF Small(1, 2) = 0 THEN st.left ELSE ((R(2) + 256 * R(3)) % st.left) + 1), raw |-> <<>>]
Nodes == Len(SelectSeq(items, LAMBDA x : x.k = "node"))
(* sizes of the cubes whose children are being listed; no children below size 2 *)
Deep == Len(stk) >= 3
NodeItem ==
    LET kind == IF Nodes > MaxNodes \/ Deep THEN Small(1, 3) + 1 ELSE (<<0, 1, 2, 3, 4, 3, 3, 0>>)[Small(1, 8) + 1]
        o == kind + 8 * (R(2) % 4) * (R(3) % 2) + 32 * (R(4) % 2) + 64 * (R(5) % 2) + 128 * (R(6) % 2)
        k0 == Kind(o) = 0
        sm == IF Small(7, 3) = 0 THEN 63 ELSE R(7) IN
    [k |-> "node", o |-> o, e |-> IF kind = 3 THEN (IF Small(8, 3) = 0 THEN [j \in 1..12 |-> 128] ELSE PS8(9, 12)) ELSE <<>>,
     tex |-> IF k0 THEN <<>> ELSE PS16(33, 6), mat |-> IF ~k0 /\ Bit(o, 64) THEN P16(55) ELSE -1,
     mer |-> IF ~k0 /\ Bit(o, 128) THEN P8(58) ELSE -1, sm |-> IF ~k0 /\ Bit(o, 32) THEN sm ELSE -1, tv |-> IF ~k0 /\ Bit(o, 32) THEN P8(60) ELSE -1,
     sf |-> IF ~k0 /\ Bit(o, 32) THEN [j \in 1..6 |-> IF Bit(sm, 2 ^ (j - 1)) THEN <<P8(60 + j), P8(70 + j), 0, 16 * (R(80 + j) % 16)>> ELSE <<>>] ELSE <<>>,
     n |-> IF HasChildren(o) THEN 8 ELSE 0]
Item == CASE st.ph = "head" -> HeadItem [] st.ph = "var" -> VarItem [] st.ph = "mru" -> [k |-> "mru", l |-> PS16(2, Small(1, 6))]
          [] st.ph = "ent" -> EntItem [] st.ph = "slot" -> SlotItem [] st.ph = "node" -> NodeItem

RECURSIVE Pop(_)
Pop(s) == IF s = <<>> THEN s ELSE IF s[Len(s)] = 0 THEN Pop(SubSeq(s, 1, Len(s) - 1)) ELSE s
Push(s, x) == LET q == IF s = <<>> THEN <<8>> ELSE s
                  t == [q EXCEPT ![Len(q)] = @ - 1]
              IN Pop(IF HasChildren(x.o) THEN Append(t, 8) ELSE t)

EdVar == [k |-> "var", name |-> IF Small(2, 3) = 0 THEN Skybox ELSE <<Small(2, 7)>> \o PS8(3, Small(4, 3)), t |-> Small(1, 3),
          i |-> IF Small(1, 3) = 0 THEN P32(10) ELSE IF Small(1, 3) = 1 THEN F32(10) ELSE 0, s |-> IF Small(1, 3) = 2 THEN PS8(20, Small(31, 9)) ELSE <<>>]
Leaf == LET x == [NodeItem EXCEPT !.o = @ - Kind(@) + 1 + Small(1, 3)]
            y == IF Kind(x.o) = 3 THEN [x EXCEPT !.e = PS8(9, 12)] ELSE [x EXCEPT !.e = <<>>]
        IN [y EXCEPT !.n = 0, !.tex = PS16(33, 6), !.mat = IF Bit(x.o, 64) THEN P16(55) ELSE -1, !.mer = IF Bit(x.o, 128) THEN P8(58) ELSE -1,
                     !.sm = IF Bit(x.o, 32) THEN 0 ELSE -1, !.tv = IF Bit(x.o, 32) THEN 0 ELSE -1,
                     !.sf = IF Bit(x.o, 32) THEN [j \in 1..6 |-> <<>>] ELSE <<>>]
Parent == [k |-> "node", o |-> 0, e |-> <<>>, tex |-> <<>>, mat |-> -1, mer |-> -1, sm |-> -1, tv |-> -1, sf |-> <<>>, n |-> 8]
Op == CASE Small(96, 12) = 0 -> [op |-> "setvar", x |-> EdVar] [] Small(96, 12) = 1 -> [op |-> "delvar", n |-> R(1)]
        [] Small(96, 12) \in 2..3 -> [op |-> "addent", x |-> EntItem] [] Small(96, 12) = 4 -> [op |-> "delent", n |-> R(1)]
        [] Small(96, 12) = 5 -> [op |-> "chgent", n |-> R(91), x |-> EntItem] [] Small(96, 12) = 6 -> [op |-> "mru", l |-> PS16(2, Small(1, 7))]
        [] Small(96, 12) = 7 -> [op |-> "root", n |-> (R(95) % 8) + 1, x |-> IF Small(94, 2) = 0 THEN <<Leaf>> ELSE <<Parent>> \o [j \in 1..8 |-> Leaf]]
        [] Small(96, 12) = 8 -> [op |-> "sky", s |-> [j \in 1..(Small(1, 5) + 1) |-> 97 + (R(j + 1) % 26)]]
        [] Small(96, 12) = 9 -> [op |-> "meta", n |-> (<<3, 4, 5, 7, 8>>)[Small(1, 5) + 1], v |-> P32(2)]
        [] Small(96, 12) = 10 -> [op |-> "save"] [] Small(96, 12) = 11 -> [op |-> "load"]
Draw == rnd = <<>> /\ st.ph # "end" /\ rnd' = [j \in 1..96 |-> RandomElement(0..255)] /\ UNCHANGED <<items, st, stk, ops>>
Add == /\ rnd # <<>> /\ st.ph # "end"
       /\ LET x == Item IN
          /\ items' = Append(items, x) /\ st' = Follow(st, x, Len(Enc(x)))
          /\ stk' = IF x.k = "node" THEN Push(stk, x) ELSE stk
       /\ rnd' = <<>> /\ UNCHANGED ops
DrawOp == rnd = <<>> /\ st.ph = "end" /\ Len(ops) < 12 /\ rnd' = [j \in 1..96 |-> RandomElement(0..255)] /\ UNCHANGED <<items, st, stk, ops>>
AddOp == rnd # <<>> /\ st.ph = "end" /\ ops' = Append(ops, Op) /\ rnd' = <<>> /\ UNCHANGED <<items, st, stk>>
(* offsets of the items *)
RECURSIVE Offsets(_, _)
Offsets(n, p) == IF n > Len(items) THEN <<>> ELSE <<p>> \o Offsets(n + 1, p + Len(Enc(items[n])))
Stop == /\ Len(ops) = 12 /\ rnd = <<>>
        /\ PrintT("@@G " \o ToJson([items |-> items, bytes |-> EncAll(items), at |-> Offsets(1, 0), ops |-> ops]))
        /\ ops' = Append(ops, 0) /\ UNCHANGED <<items, st, rnd, stk>>
Init == items = <<>> /\ st = Start /\ rnd = <<>> /\ stk = <<>> /\ ops = <<>>
Next == Draw \/ Add \/ DrawOp \/ AddOp \/ Stop
Spec == Init /\ [][Next]_vars
=============================================================================
