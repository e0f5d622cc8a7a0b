------------------------------- MODULE CZFree -------------------------------
(***************************************************************************)
(* Precedence among objects whose atoms lie anywhere: amorphous blocks,    *)
(* strained crystals, crystals after post-transforms, molecules (C01, C02).*)
(* st = id :> an object:                                                   *)
(*   [k |-> "vol", prio, reg]    reg as in CZAGen                          *)
(*   [k |-> "multi", prio, kids]                                           *)
(*   [k |-> "mol", prio, atoms]  <<x, y, z, species>>                      *)
(*   [k |-> "none"]              surfaces of volumes that own no atoms     *)
(* Units of 1/1000 Angstrom.  What an object itself is made of is observed *)
(* (own); which of it remains is decided here.  Atoms within Tol of the    *)
(* surface of another object may go either way.                            *)
(***************************************************************************)
EXTENDS CZAGen

FSHalf(o) == AMHalf(o.reg)
RECURSIVE FSIn(_, _, _, _)
FSIn(st, id, x, m) ==
  LET o == st[id] IN
  CASE o.k = "vol" -> MIn(FSHalf(o), x, m)
    [] o.k = "multi" -> \E i \in DOMAIN o.kids : FSIn(st, o.kids[i], x, m)
    [] o.k = "mol" -> FALSE

FSPos(a) == <<a[1], a[2], a[3]>>
FSTfAtom(T, a) == LET p == MapPoint(T, FSPos(a)) IN <<p[1], p[2], p[3], a[4]>>
RECURSIVE FSTf(_, _, _)
RECURSIVE FSTfAll(_, _, _)
FSTf(st, id, T) ==
  LET o == st[id] IN
  CASE o.k = "vol" -> AMPut(st, id, [o EXCEPT !.reg = AMReg(T, @)])
    [] o.k = "mol" -> AMPut(st, id, [o EXCEPT !.atoms = [i \in DOMAIN @ |-> FSTfAtom(T, @[i])]])
    [] o.k = "multi" -> FSTfAll(st, o.kids, T)
FSTfAll(st, ids, T) == IF ids = <<>> THEN st ELSE FSTfAll(FSTf(st, Head(ids), T), Tail(ids), T)

FSStep(st, e) ==
  CASE e.fn = "fs_obj" -> AMPut(st, e.id, e.o)
    [] e.fn = "fs_tf" -> FSTf(st, e.id, e.T)
    [] e.fn = "fs_prio" -> AMPut(st, e.id, [st[e.id] EXCEPT !.prio = e.prio])
    [] e.fn = "fs_add" -> AMPut(st, e.id, [st[e.id] EXCEPT !.kids = Append(@, e.kid)])
    [] OTHER -> st

------------------------------------------------------------------------------
(* own[id]: the atoms of each object; the remaining ones among ids are res *)
FSRivals(st, ids, i) == {j \in DOMAIN ids : j # i /\ st[ids[j]].prio <= st[ids[i]].prio}
FSResolve(st, ids, own, res) ==
  LET R == RangeOf(res)
      Stays(i) == {a \in RangeOf(own[ids[i]]) : \A j \in FSRivals(st, ids, i) : ~ FSIn(st, ids[j], FSPos(a), 0 - Tol)}
      May(i) == {a \in RangeOf(own[ids[i]]) : \A j \in FSRivals(st, ids, i) : ~ FSIn(st, ids[j], FSPos(a), Tol)}
      stays == [i \in DOMAIN ids |-> Stays(i)]
      may == [i \in DOMAIN ids |-> May(i)]
      RECURSIVE Sum(_, _)
      Sum(f, i) == IF i > Len(ids) THEN 0 ELSE Cardinality(f[i]) + Sum(f, i + 1)
  IN (IF \A i \in DOMAIN ids : stays[i] \subseteq R THEN {} ELSE {"missing-atom"})
     \cup (IF R \subseteq UNION {may[i] : i \in DOMAIN ids} THEN {} ELSE {"extraneous-atom"})
     \cup (IF Len(res) >= Sum(stays, 1) /\ Len(res) <= Sum(may, 1) THEN {} ELSE {"number-of-atoms"})

FSClauses(st, e) ==
  IF e.exc # "" THEN {"unexpected-" \o e.exc}
  ELSE IF e.fn # "fs_pop" THEN {}
  ELSE LET own == [x \in {e.own[i].id : i \in DOMAIN e.own} |-> e.own[CHOOSE i \in DOMAIN e.own : e.own[i].id = x].atoms] IN
       FSResolve(st, e.ids, own, e.res)
       \cup UNION { LET o == st[x] IN
              CASE o.k = "vol" -> IF \A a \in RangeOf(own[x]) : MIn(FSHalf(o), FSPos(a), 0 - Tol) THEN {} ELSE {"atom-outside-region"}
                [] o.k = "mol" -> IF own[x] = o.atoms THEN {} ELSE {"molecule-elsewhere"}
                [] o.k = "multi" -> FSResolve(st, o.kids, own, own[x])
              : x \in DOMAIN own }
=============================================================================
