------------------------------ MODULE TraceGen ------------------------------
(***************************************************************************)
(* Validates recorded histories of several generators against CZGen.       *)
(***************************************************************************)
EXTENDS CZGen, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.CZ_TRACE)
VARIABLES tr, l, st

Ev == Traces[tr].events[l]
Clauses(e) == IF e.fn = "crash" THEN {"unobservable-" \o e.exc} ELSE GenClauses(st, e)

TInit == tr \in 1..Len(Traces) /\ l = 1 /\ st = GEmpty
TNext == /\ l <= Len(Traces[tr].events)
         /\ LET c == Clauses(Ev) IN
            c # {} => PrintT("CZVIOL " \o ToString(tr) \o " " \o ToString(l) \o " " \o Ev.fn \o " " \o ToString(c))
         /\ st' = IF Ev.fn = "crash" \/ Ev.exc # "" THEN st ELSE GenStep(st, Ev)
         /\ l' = l + 1
         /\ tr' = tr
TSpec == TInit /\ [][TNext]_<<tr, l, st>>
=============================================================================
