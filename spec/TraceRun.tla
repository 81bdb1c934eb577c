------------------------------ MODULE TraceRun ------------------------------
(* Validation of recorded executions.  Root modules extend this one and the  *)
(* specification of a component, and bind the two operator constants in      *)
(* their configuration:                                                      *)
(*   TInit(cfg)          the specification state a trace starts in           *)
(*   TStep(cfg, st, e)   [st |-> next specification state,                   *)
(*                        bad |-> names of the clauses event e violates,     *)
(*                        x |-> optional data printed as an @@X line]        *)
(* Verdicts are total: every trace yields @@BAD lines for the violated       *)
(* clauses of each event, and one @@DONE line when all events are consumed.  *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS TInit(_), TStep(_, _, _)

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l, st

TraceInit ==
  /\ tr \in DOMAIN Traces
  /\ l = 0
  /\ st = TInit(Traces[tr].cfg)
  /\ (Len(Traces[tr].ev) > 0 \/ PrintT("@@DONE " \o ToJson(Traces[tr].id)))

TraceNext ==
  /\ l < Len(Traces[tr].ev)
  /\ LET e == Traces[tr].ev[l + 1]
         r == TStep(Traces[tr].cfg, st, e)
     IN /\ st' = r.st
        /\ l' = l + 1
        /\ tr' = tr
        /\ (r.bad = {} \/
            PrintT("@@BAD " \o ToJson([id |-> Traces[tr].id, l |-> l + 1, bad |-> r.bad])))
        /\ ("x" \notin DOMAIN r \/
            PrintT("@@X " \o ToJson([id |-> Traces[tr].id, l |-> l + 1, x |-> r.x])))
        /\ (l + 1 < Len(Traces[tr].ev) \/
            PrintT("@@DONE " \o ToJson(Traces[tr].id)))

TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l, st>>
=============================================================================
