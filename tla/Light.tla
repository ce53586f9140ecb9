-------------------------------- MODULE Light -----------------------------
(* Light managers and the lights they add to a map.  Positions are doubled  *)
(* fine coordinates, positions of lights are in 1/64, brightness and        *)
(* saturation in 1/64, size factors in quarters.                            *)
EXTENDS Integers, Sequences, FiniteSets
Min(a, b) == IF a < b THEN a ELSE b
Max3(c) == IF c[1] >= c[2] /\ c[1] >= c[3] THEN c[1] ELSE IF c[2] >= c[3] THEN c[2] ELSE c[3]
Min3(c) == IF c[1] <= c[2] /\ c[1] <= c[3] THEN c[1] ELSE IF c[2] <= c[3] THEN c[2] ELSE c[3]
(* the brightest component of a colour; more than full brightness is full *)
Value(b) == (255 * Min(b, 64)) \div 64
(* the pure colour of a position: fully bright and saturated *)
Pure(h) == Max3(h) = 255 /\ Min3(h) = 0 /\ \A j \in 1..3 : h[j] \in 0..255
(* component of the colour a pure component h becomes; h itself was cut off to a whole number *)
Shade(h, b, s) == (Value(b) * (64 * 255 - 255 * s + s * h)) \div (64 * 255)
Shades(h, b, s) == (Shade(h, b, s) - 1)..Shade(IF h = 255 THEN 255 ELSE h + 1, b, s)
ColourOf(c, h, b, s) == \A j \in 1..3 : c[j] \in 0..255 /\ c[j] \in Shades(h[j], b, s)
(* position of the light: centred in its cell or not, in the units of the map, which is 1024 wide for the game *)
At(p, centre, ws) == [j \in 1..3 |-> (p[j] + (IF centre THEN 8 ELSE 0)) * (32768 \div ws)]
Radius(f) == (64 * f) \div 4
(* the light as an entity: position, radius, other attributes *)
LightOf(m, x, c) == [o |-> At(x.p, x.centre, m.ws), a |-> <<Radius(x.f)>> \o c \o <<0, 0>>]
Manager(x) == [cls |-> x.cls, b |-> x.b, s |-> x.s, ws |-> x.ws]
Start0 == [mans |-> <<>>, lights |-> <<>>]
(* c: the colour chosen *)
Step(q, x, c) ==
    CASE x.op = "manager" -> [q EXCEPT !.mans = Append(@, Manager(x))]
      [] x.op = "bright" -> [q EXCEPT !.mans[x.n].b = x.v]
      [] x.op = "saturate" -> [q EXCEPT !.mans[x.n].s = x.v]
      [] x.op = "light" -> [q EXCEPT !.lights = Append(@, LightOf(q.mans[x.n], x, c))]
      [] OTHER -> q
(* colours a light may have: its own, white, or one of the position *)
Legal(q, x, c, h) == LET m == q.mans[x.n] IN
    IF x.over # <<>> THEN c = x.over[1] ELSE IF m.cls = "plain" THEN c = <<255, 255, 255>> ELSE ColourOf(c, h, m.b, m.s)
=============================================================================
