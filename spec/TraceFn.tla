------------------------------ MODULE TraceFn ------------------------------
(***************************************************************************)
(* Validates recorded calls of the functional parts of the library.  st is *)
(* the state of the component a history is about, where it has one.        *)
(***************************************************************************)
EXTENDS CZUtil, CZAmorph, CZField, CZRot, CZPlanes, CZStack, CZSurf, CZWulff, CZCell, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.CZ_TRACE)
VARIABLES tr, l, st

Ev == Traces[tr].events[l]

AGFns == {"ag_new", "ag_set", "ag_reuse", "ag_supply", "ag_populate", "ag_tf"}
FieldFns == {"f_copy", "f_gen", "f_strain", "f_post", "f_org", "f_tf", "f_supply", "f_vol", "f_app", "f_sub"}

Clauses(e) ==
  IF e.fn = "crash" THEN {"unobservable-" \o e.exc}
  ELSE IF e.fn = "splits" THEN SplitClauses(e)
  ELSE IF e.fn = "splitset" THEN SplitSetClauses(e)
  ELSE IF e.fn \in AGFns THEN AGClauses(st, e)
  ELSE IF e.fn \in FieldFns THEN FieldClauses(st, e)
  ELSE IF e.fn \in RotFns THEN RotClauses(e)
  ELSE IF e.fn \in PlaneFns THEN PlaneClauses(e)
  ELSE IF e.fn \in StackFns THEN StackClauses(e)
  ELSE IF e.fn \in SurfFns THEN SurfClauses(e)
  ELSE IF e.fn \in WulffFns THEN WulffClauses(e)
  ELSE IF e.fn \in CellFns THEN CellClauses(e)
  ELSE IF e.exc # "" THEN {"unexpected-" \o e.exc}
  ELSE CASE e.fn = "voxgrid" -> VoxClauses(e)
         [] e.fn = "rdf" -> RdfClauses(e)
         [] e.fn = "sdist" -> SdistClauses(e)
         [] e.fn = "amorph" -> AmorphClauses(e)

Step(e) ==
  IF e.fn = "crash" \/ e.exc # "" THEN st
  ELSE IF e.fn \in AGFns THEN AGStep(st, e)
  ELSE IF e.fn \in FieldFns THEN FieldStep(st, e)
  ELSE st

TInit == tr \in 1..Len(Traces) /\ l = 1 /\ st = <<>>
TNext == /\ l <= Len(Traces[tr].events)
         /\ LET c == Clauses(Ev) IN
            c # {} => PrintT("CZVIOL " \o ToString(tr) \o " " \o ToString(l) \o " " \o Ev.fn \o " " \o ToString(c))
         /\ st' = Step(Ev)
         /\ l' = l + 1
         /\ tr' = tr
TSpec == TInit /\ [][TNext]_<<tr, l, st>>
=============================================================================
