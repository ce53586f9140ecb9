------------------------------- MODULE ReproGen ---------------------------
(* Arguments, and environments to run them in.                              *)
EXTENDS Repro, TLC, Json
CONSTANTS Envs
VARIABLES rnd, args, envs
vars == <<rnd, args, envs>>
R(n) == rnd[n]
Args == [kind |-> IF R(1) % 2 = 0 THEN "main" ELSE "rooms", seed |-> R(2) + 256 * R(3), rooms |-> (R(4) % 8) + 2,
         size |-> IF R(5) % 4 = 0 THEN 128 ELSE 64, mirror |-> (<<1, 2, 4>>)[(R(6) % 3) + 1], ctf |-> R(7) % 2 = 0, debug |-> R(8) % 5 = 0,
         flavor |-> (<<<<>>, <<"space_station">>, <<"maliwan", "crushed_blacks">>>>)[(R(9) % 3) + 1], input |-> R(10) % 3, fx |-> R(11) % 8]
Env == [hash |-> R(1) + 256 * R(2), draws |-> R(3) % 20, seeded |-> R(4) % 2 = 0, garbage |-> R(5) * 100, late |-> R(6) % 2 = 0, zone |-> R(7) % 24]
Draw == rnd = <<>> /\ Len(envs) < Envs /\ rnd' = [j \in 1..12 |-> RandomElement(0..255)] /\ UNCHANGED <<args, envs>>
DoArgs == rnd # <<>> /\ args = <<>> /\ args' = <<Args>> /\ rnd' = <<>> /\ UNCHANGED envs
DoEnv == rnd # <<>> /\ args # <<>> /\ Len(envs) < Envs /\ envs' = Append(envs, Env) /\ rnd' = <<>> /\ UNCHANGED args
Stop == Len(envs) = Envs /\ rnd = <<>> /\ PrintT("@@G " \o ToJson([args |-> args[1], envs |-> envs])) /\ rnd' = <<0>> /\ UNCHANGED <<args, envs>>
Init == rnd = <<>> /\ args = <<>> /\ envs = <<>>
Next == Draw \/ DoArgs \/ DoEnv \/ Stop
Spec == Init /\ [][Next]_vars
=============================================================================
