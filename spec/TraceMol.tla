------------------------------ MODULE TraceMol ------------------------------
(* Validates recorded histories of molecules against CZMol. *)
EXTENDS CZMol, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.CZ_TRACE)
VARIABLES tr, l
Ev == Traces[tr].events[l]

ReqClauses(e) ==
  IF e.exc = "TimeoutError" THEN {"timeout"}
  ELSE IF Legal(e) THEN (IF e.exc = "" THEN {} ELSE {"rejected-" \o e.exc})
  ELSE IF e.exc = "" THEN {"invalid-request-accepted"} ELSE {}

(* the state after the request is the primed one *)
ObsClauses(e) ==
  UNION { LET o == e.obs[k] IN
          IF o.id \in DOMAIN mols' THEN MolClauses(mols'[o.id], o) ELSE {"unknown-molecule"}
          : k \in DOMAIN e.obs }
  \cup (IF Len(e.obs) = Cardinality(DOMAIN mols') THEN {} ELSE {"unobserved-molecule"})

TInit == tr \in 1..Len(Traces) /\ l = 1 /\ mols = <<>>
TNext == /\ l <= Len(Traces[tr].events)
         /\ IF Ev.fn = "crash"
            THEN /\ mols' = mols
                 /\ PrintT("CZVIOL " \o ToString(tr) \o " " \o ToString(l) \o " crash " \o ToString({"unobservable-" \o Ev.exc}))
            ELSE /\ MolNext(Ev)
                 /\ LET c == ReqClauses(Ev) \cup (IF ReqClauses(Ev) = {} THEN ObsClauses(Ev) ELSE {}) IN
                    c # {} => PrintT("CZVIOL " \o ToString(tr) \o " " \o ToString(l) \o " " \o Ev.fn \o " " \o ToString(c))
         /\ l' = l + 1
         /\ tr' = tr
TSpec == TInit /\ [][TNext]_<<mols, tr, l>>
=============================================================================
