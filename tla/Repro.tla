-------------------------------- MODULE Repro -----------------------------
(* Runs of the generator.  A run has arguments, and an environment which it *)
(* must not depend on: hash seed, state of the random numbers, objects in   *)
(* memory, directory, clock, other runs at the same time.  What a run gives *)
(* is kept with its arguments.                                              *)
EXTENDS Integers, Sequences, FiniteSets
Seen(known, args) == \E r \in known : r.args = args
Result(known, args) == (CHOOSE r \in known : r.args = args).result
Keep(known, args, result) == IF Seen(known, args) THEN known ELSE known \cup {[args |-> args, result |-> result]}
(* the parts of two results which differ *)
Differences(a, b) == {p \in DOMAIN a : a[p] # b[p]}
(* an abstract generator: doors are picked by the next random number out of those which are open *)
Rand(r) == (5 * r + 3) % 16
Drop(q, k) == [j \in 1..(Len(q) - 1) |-> IF j < k THEN q[j] ELSE q[j + 1]]
Pick(q, r) == (r % Len(q)) + 1
Place(g) == LET k == Pick(g.doors, g.rng)  r == Rand(g.rng)  n == r % 3 IN
    [g EXCEPT !.rng = r, !.out = Append(@, <<g.doors[k], n>>), !.next = @ + n,
              !.doors = Drop(@, k) \o [j \in 1..n |-> g.next + j]]
Begin(args) == [args |-> args, rng |-> args.seed, doors |-> [j \in 1..args.mirror |-> j], next |-> args.mirror, out |-> <<>>]
Finished(g) == g.doors = <<>> \/ Len(g.out) >= g.args.rooms
=============================================================================
