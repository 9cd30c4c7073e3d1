----------------------------- MODULE TraceBase -----------------------------
(* Shared skeleton of all trace specifications.                             *)
(* The trace file (environment variable TRACE) holds one recorded scenario  *)
(* per line: [id, events], each event [a (action name), in, out].           *)
(* Every scenario is one behaviour: TraceInit picks it, and a scenario is    *)
(* accepted exactly when some behaviour of the specification consumes all    *)
(* of its events (reported by the invariant Report).                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES sc, l

Scen == ndJsonDeserialize(IOEnv.TRACE)
Diag == "DIAG" \in DOMAIN IOEnv

NEv == Len(Scen[sc].events)
Has == l <= NEv
Ev  == Scen[sc].events[l]

TraceInit == sc \in 1 .. Len(Scen) /\ l = 1
Is(a) == Has /\ Ev.a = a /\ l' = l + 1 /\ sc' = sc
(* a step of the specification that consumes no event *)
Silent == l' = l /\ sc' = sc

Report ==
  /\ IF l > NEv THEN PrintT("@@ACC " \o ToString(Scen[sc].id)) ELSE TRUE
  /\ IF Diag THEN PrintT("@@AT " \o ToString(Scen[sc].id) \o " " \o ToString(l)) ELSE TRUE
=============================================================================
