------------------------------- MODULE ReproMC ----------------------------
(* Several runs at once, step by step in any order, each in its own         *)
(* environment, one after the other in the same slot.                       *)
EXTENDS Repro, TLC
CONSTANTS Slots, Seeds, Rooms, Runs
VARIABLES run, env, known, left
vars == <<run, env, known, left>>
Args == [seed : Seeds, mirror : {1, 2}, rooms : Rooms]
Idle == [args |-> [seed |-> 0, mirror |-> 0, rooms |-> 0], rng |-> 0, doors |-> <<>>, next |-> 0, out |-> <<>>]
Init == run = [s \in Slots |-> Idle] /\ env \in [Slots -> 0..1] /\ known = {} /\ left = Runs
Start(s) == run[s] = Idle /\ left > 0 /\ left' = left - 1 /\ \E a \in Args : run' = [run EXCEPT ![s] = Begin(a)] /\ UNCHANGED <<env, known>>
Work(s) == run[s] # Idle /\ ~Finished(run[s]) /\ run' = [run EXCEPT ![s] = Place(@)] /\ UNCHANGED <<env, known, left>>
(* the environment changes with every run *)
End(s) == /\ run[s] # Idle /\ Finished(run[s]) /\ known' = known \cup {[args |-> run[s].args, result |-> run[s].out]}
          /\ run' = [run EXCEPT ![s] = Idle] /\ env' = [env EXCEPT ![s] = 1 - @] /\ UNCHANGED left
Next == \E s \in Slots : Start(s) \/ Work(s) \/ End(s)
Spec == Init /\ [][Next]_vars
Function == \A a, b \in known : a.args = b.args => a.result = b.result
(* a shorter run is the beginning of a longer one of the same seed *)
Prefix == \A a, b \in known : (a.args.seed = b.args.seed /\ a.args.mirror = b.args.mirror /\ Len(a.result) <= Len(b.result)) =>
              SubSeq(b.result, 1, Len(a.result)) = a.result
Bounded == \A a \in known : Len(a.result) <= a.args.rooms
=============================================================================
