------------------------------- MODULE CZMol -------------------------------
(***************************************************************************)
(* Molecules (C09).  Every atom has an identity (a label no operation ever *)
(* changes); the origin of a molecule is a fixed point or the identity of  *)
(* an atom.  mols maps ids to                                              *)
(*   [atoms |-> seq of [lab, p, z], org |-> [trk, lab, p], ori, prio]      *)
(* Requests carry Python indices (negative ones count from the end); the   *)
(* specification decides which requests are legal.  A request that is not  *)
(* must be rejected, and then changes nothing.                             *)
(***************************************************************************)
EXTENDS CZGeom

VARIABLE mols

NAtoms(m) == Len(m.atoms)
ValidIdx(n, i) == i >= 0 - n /\ i < n
PyIdx(n, i) == IF i < 0 THEN i + n + 1 ELSE i + 1          \* position in a TLA+ sequence
LabelAt(m, i) == m.atoms[PyIdx(NAtoms(m), i)].lab
PutM(id, m) == [x \in DOMAIN mols \cup {id} |-> IF x = id THEN m ELSE mols[x]]

(* fresh labels: one more than any label in use anywhere *)
AllLabels == UNION {{mols[i].atoms[k].lab : k \in DOMAIN mols[i].atoms} : i \in DOMAIN mols}
Base == IF AllLabels = {} THEN 0 ELSE MaxOf(AllLabels)
Fresh(ps, zs) == [k \in DOMAIN ps |-> [lab |-> Base + k, p |-> ps[k], z |-> zs[k]]]

PointOrigin(p) == [trk |-> FALSE, lab |-> 0, p |-> p]
TrackOrigin(l) == [trk |-> TRUE, lab |-> l, p |-> Zero]

OriginOf(m) == IF m.org.trk
               THEN m.atoms[CHOOSE k \in DOMAIN m.atoms : m.atoms[k].lab = m.org.lab].p
               ELSE m.org.p

------------------------------------------------------------------------------
(* legality *)
Removed(m, is) == {LabelAt(m, is[k]) : k \in DOMAIN is}
Legal(e) ==
  CASE e.fn = "m_new" -> /\ Len(e.ps) = Len(e.zs)
                         /\ e.okind = "idx" => ValidIdx(Len(e.ps), e.i)
                         /\ "ori" \in DOMAIN e => e.ok
    [] e.fn = "m_atoms" -> Len(e.ps) = Len(e.zs)
    [] e.fn = "m_pos" -> Len(e.ps) = NAtoms(mols[e.id])
    [] e.fn = "m_spec" -> Len(e.zs) = NAtoms(mols[e.id])
    [] e.fn = "m_remove" ->
         LET m == mols[e.id] n == NAtoms(m) IN
         /\ \A k \in DOMAIN e.is : ValidIdx(n, e.is[k])
         /\ e.hasnew => /\ e.newok /\ ValidIdx(n, e.new)
                        /\ LabelAt(m, e.new) \notin Removed(m, e.is)
         /\ (m.org.trk /\ ~ e.hasnew) => m.org.lab \notin Removed(m, e.is)
    [] e.fn = "m_idx" -> e.ok /\ ValidIdx(NAtoms(mols[e.id]), e.i)
    [] e.fn = "m_point" -> Len(e.p) = 3
    [] e.fn = "m_ori" -> e.ok
    [] e.fn = "m_prio" -> e.ok
    [] e.fn \in {"m_tf", "m_copy", "m_reset"} -> TRUE

------------------------------------------------------------------------------
(* actions *)
MapA(T, a) == [a EXCEPT !.p = MapPoint(T, @)]
TfOne(T, m, torg) ==
  [m EXCEPT !.atoms = [k \in DOMAIN @ |-> MapA(T, @[k])],
            !.org = IF @.trk \/ ~ torg THEN @ ELSE [@ EXCEPT !.p = MapPoint(T, @)]]
RECURSIVE TfMany(_, _, _)
TfMany(Ts, m, torg) == IF Ts = <<>> THEN m ELSE TfMany(Tail(Ts), TfOne(Head(Ts), m, torg), torg)

RemoveLabels(m, R) == [m EXCEPT !.atoms = SelectSeq(@, LAMBDA a : a.lab \notin R)]

IdentOri == << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>

Effect(e) ==
  CASE e.fn = "m_new" ->
         LET as == Fresh(e.ps, e.zs) IN
         PutM(e.id, [atoms |-> as, prio |-> 0,
                     ori |-> IF "ori" \in DOMAIN e THEN e.ori ELSE IdentOri,
                     org |-> IF e.okind = "idx" THEN TrackOrigin(as[PyIdx(Len(as), e.i)].lab)
                             ELSE PointOrigin(e.p)])
    [] e.fn = "m_atoms" -> PutM(e.id, [mols[e.id] EXCEPT
                               !.atoms = [k \in DOMAIN e.ps |->
                                            [lab |-> IF k <= Len(@) THEN @[k].lab ELSE Base + k,
                                             p |-> e.ps[k], z |-> e.zs[k]]]])
    [] e.fn = "m_pos" -> PutM(e.id, [mols[e.id] EXCEPT
                               !.atoms = [k \in DOMAIN @ |-> [@[k] EXCEPT !.p = e.ps[k]]]])
    [] e.fn = "m_spec" -> PutM(e.id, [mols[e.id] EXCEPT
                               !.atoms = [k \in DOMAIN @ |-> [@[k] EXCEPT !.z = e.zs[k]]]])
    [] e.fn = "m_remove" ->
         LET m == mols[e.id]
             m2 == RemoveLabels(m, Removed(m, e.is))
         IN PutM(e.id, IF e.hasnew THEN [m2 EXCEPT !.org = TrackOrigin(LabelAt(m, e.new))] ELSE m2)
    [] e.fn = "m_idx" -> PutM(e.id, [mols[e.id] EXCEPT !.org = TrackOrigin(LabelAt(mols[e.id], e.i))])
    [] e.fn = "m_point" -> PutM(e.id, [mols[e.id] EXCEPT !.org = PointOrigin(e.p)])
    [] e.fn = "m_ori" -> PutM(e.id, [mols[e.id] EXCEPT !.ori = e.ori])
    [] e.fn = "m_reset" -> PutM(e.id, [mols[e.id] EXCEPT !.ori = IdentOri])
    [] e.fn = "m_prio" -> PutM(e.id, [mols[e.id] EXCEPT !.prio = e.prio])
    [] e.fn = "m_tf" -> PutM(e.id, TfMany(e.T, mols[e.id], e.torg))
    [] e.fn = "m_copy" -> PutM(e.new, TfMany(e.T, mols[e.id], TRUE))

MolNext(e) == mols' = IF Legal(e) /\ e.exc = "" THEN Effect(e) ELSE mols

------------------------------------------------------------------------------
(* what is observed of every molecule after each request, in state m *)
MolClauses(m, o) ==
  (IF o.off > 0 THEN {"off-grid"} ELSE {})
  \cup (IF Len(o.atoms) # NAtoms(m) THEN {"number-of-atoms"}
        ELSE (IF \A k \in DOMAIN m.atoms : <<o.atoms[k][1], o.atoms[k][2], o.atoms[k][3]>> = m.atoms[k].p THEN {} ELSE {"positions"})
             \cup (IF \A k \in DOMAIN m.atoms : o.atoms[k][4] = m.atoms[k].z THEN {} ELSE {"species"}))
  \cup (IF o.org = OriginOf(m) THEN {} ELSE {IF m.org.trk THEN "tracked-origin" ELSE "fixed-origin"})
  \cup (IF o.ori = m.ori THEN {} ELSE {"orientation"})
  \cup (IF o.prio = m.prio THEN {} ELSE {"priority"})
=============================================================================
