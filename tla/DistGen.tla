------------------------------- MODULE DistGen ----------------------------
(* Random tables, mirrored and not, with questions to ask.                  *)
EXTENDS Dist, TLC, Json
CONSTANTS Length
VARIABLES rnd, tab, mirror, asks, n
vars == <<rnd, tab, mirror, asks, n>>
Names == <<"hallway", "stair", "platform", "oriented", "vertical", "x">>
Weights == <<"0", "1", "0.1", "0.25", "3.7", "0.01", "12">>
Row == [a |-> Names[(rnd[1] % 5) + 1], b |-> Names[(rnd[2] % (2 + (n % 4))) + 1], w |-> Weights[(rnd[3] % 7) + 1]]
Ask == [op |-> IF rnd[4] % 3 = 0 THEN "for" ELSE "tp", a |-> Names[(rnd[5] % 6) + 1], b |-> Names[(rnd[6] % 6) + 1], obj |-> rnd[7] % 2]
Draw == n < Length /\ rnd = <<>> /\ rnd' = [j \in 1..8 |-> RandomElement(0..255)] /\ UNCHANGED <<tab, mirror, asks, n>>
Do == rnd # <<>> /\ n < Length /\ n' = n + 1 /\ rnd' = <<>> /\ UNCHANGED mirror
      /\ tab' = (IF n < Length \div 3 /\ ~\E j \in 1..Len(tab) : tab[j].a = Row.a /\ tab[j].b = Row.b THEN Append(tab, Row) ELSE tab)
      /\ asks' = IF n < Length \div 3 THEN asks ELSE Append(asks, Ask)
Stop == n = Length /\ rnd = <<>> /\ PrintT("@@G " \o ToJson([tab |-> tab, mirror |-> mirror, asks |-> asks])) /\ rnd' = <<0>> /\ UNCHANGED <<tab, mirror, asks, n>>
Init == rnd = <<>> /\ tab = <<>> /\ mirror \in BOOLEAN /\ asks = <<>> /\ n = 0
Next == Draw \/ Do \/ Stop
Spec == Init /\ [][Next]_vars
=============================================================================
