---------------------------- MODULE TraceKit ----------------------------
(* Shared by all trace specifications: a recorded trace file holds one      *)
(* scenario per line, a scenario holds a sequence of events.  Each trace    *)
(* specification consumes the events of a scenario one by one, follows the  *)
(* specification state, and reports the clauses an event violates.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Scenarios == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

Report(sc, i, key, bad) ==
    \/ bad = {}
    \/ PrintT("@@V " \o ToJson([s |-> sc.id, i |-> i, k |-> key, c |-> bad]))

Done(sc, i) ==
    \/ i < Len(sc.ev)
    \/ PrintT("@@D " \o ToJson([s |-> sc.id]))

(* the clauses (name -> holds) that fail *)
Failing(f) == {c \in DOMAIN f : ~f[c]}
Range(s) == {s[i] : i \in 1..Len(s)}
=============================================================================
