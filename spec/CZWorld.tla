------------------------------- MODULE CZWorld -------------------------------
(***************************************************************************)
(* The object model of Construction Zone as a state machine.               *)
(*                                                                         *)
(* heap maps the ids of live user-visible objects to records:              *)
(*   [k |-> "crystal", o, B, D, sites] / [k |-> "null"]       generators   *)
(*   [k |-> "alg", a]                                         surfaces     *)
(*   [k |-> "vol", pts, planes, algs, gen, prio, enc]         volumes      *)
(*   [k |-> "multi", kids, prio]                              multi-volumes*)
(*   [k |-> "mol", atoms, org, prio]                          molecules    *)
(*   [k |-> "scene", objs]                                    scenes       *)
(*                                                                         *)
(* A volume *owns* its generator, points and surfaces (values); multi-     *)
(* volumes and scenes *refer* to their parts (ids).  One action per public *)
(* operation; everything else is unchanged by it - which is what "copies   *)
(* and attached parts are independent" means.                              *)
(***************************************************************************)
EXTENDS CZGeom

VARIABLE heap

NoGen == [k |-> "none"]
Has(id) == id \in DOMAIN heap
Put(h, id, r) == [x \in DOMAIN h \cup {id} |-> IF x = id THEN r ELSE h[x]]

------------------------------------------------------------------------------
(* Interior and atoms, as functions of a heap h *)

VolIn(v, x) == /\ InHull(v.planes, x)
               /\ \A i \in DOMAIN v.algs : InAlg(v.algs[i], x)

RECURSIVE In(_, _, _)
In(h, id, x) ==
  LET r == h[id] IN
  CASE r.k = "vol" -> VolIn(r, x)
    [] r.k = "multi" -> \E i \in DOMAIN r.kids : In(h, r.kids[i], x)
    [] r.k = "alg" -> InAlg(r.a, x)
    [] r.k = "mol" -> FALSE

(* enclosing points of a volume: its own points if it has any *)
EncOf(v) == IF v.pts # <<>> THEN RangeOf(v.pts) ELSE RangeOf(v.enc)

VolAtoms(v) ==
  IF v.gen.k # "crystal" THEN {}
  ELSE SitesIn(v.gen, EncOf(v), LAMBDA x : VolIn(v, x))

MolAtoms(m) == {<<a[1], a[2], a[3], a[4]>> : a \in RangeOf(m.atoms)}

Pos(a) == <<a[1], a[2], a[3]>>

(* Precedence: the atoms of part i of a collection ids that no other part of
   the same or a lower priority number contains. *)
RECURSIVE AtomsOf(_, _)
Remaining(h, ids, i) ==
  LET mine == AtomsOf(h, ids[i])
      rivals == {j \in DOMAIN ids : j # i /\ h[ids[j]].prio <= h[ids[i]].prio}
  IN {a \in mine : \A j \in rivals : ~ In(h, ids[j], Pos(a))}
Resolve(h, ids) == UNION {Remaining(h, ids, i) : i \in DOMAIN ids}
(* ... and how many there are: an atom of a molecule, which claims no space,
   may happen to lie where a volume or another molecule has an atom too *)
RECURSIVE SumOver(_, _, _)
SumOver(h, ids, i) ==
  IF i > Len(ids) THEN 0
  ELSE Cardinality({a \in AtomsOf(h, ids[i]) :
                      \A j \in DOMAIN ids : j = i \/ h[ids[j]].prio > h[ids[i]].prio
                                             \/ ~ In(h, ids[j], Pos(a))})
       + SumOver(h, ids, i + 1)
NumAtoms(h, id) ==
  LET r == h[id] IN
  IF r.k = "scene" THEN SumOver(h, r.objs, 1) ELSE Cardinality(AtomsOf(h, id))

AtomsOf(h, id) ==
  LET r == h[id] IN
  CASE r.k = "vol" -> VolAtoms(r)
    [] r.k = "mol" -> MolAtoms(r)
    [] r.k = "multi" -> Resolve(h, r.kids)
    [] r.k = "scene" -> Resolve(h, r.objs)

------------------------------------------------------------------------------
(* Transformations: a sequence of steps, each [N, d, c, t, lk, bo] *)

TfGen(T, g) == MapGen(T, g, T)

TfVol(T, v) ==
  [v EXCEPT !.pts = [i \in DOMAIN @ |-> MapPoint(T, @[i])],
            !.planes = HullPlanes([i \in DOMAIN v.pts |-> MapPoint(T, v.pts[i])]),
            !.algs = [i \in DOMAIN @ |-> MapAlg(T, @[i])],
            !.enc = [i \in DOMAIN @ |-> MapPoint(T, @[i])],
            !.gen = IF T.lk THEN TfGen(T, @) ELSE @]

MapAtom(T, a) == LET p == MapPoint(T, Pos(a)) IN <<p[1], p[2], p[3], a[4]>>
TfMol(T, m) ==
  [m EXCEPT !.atoms = [i \in DOMAIN @ |-> MapAtom(T, @[i])],
            !.org = IF @.trk THEN @ ELSE [@ EXCEPT !.p = MapPoint(T, @)]]

RECURSIVE Tf1(_, _, _)
RECURSIVE TfKids(_, _, _)
Tf1(h, id, T) ==
  LET r == h[id] IN
  CASE r.k = "vol" -> [h EXCEPT ![id] = TfVol(T, @)]
    [] r.k = "mol" -> [h EXCEPT ![id] = TfMol(T, @)]
    [] r.k = "alg" -> [h EXCEPT ![id] = [@ EXCEPT !.a = MapAlg(T, @)]]
    [] r.k \in {"crystal", "null"} -> [h EXCEPT ![id] = TfGen(T, @)]
    [] r.k = "multi" -> TfKids(h, r.kids, T)
TfKids(h, kids, T) == IF kids = <<>> THEN h
                      ELSE TfKids(Tf1(h, Head(kids), T), Tail(kids), T)

RECURSIVE TfSeq(_, _, _)
TfSeq(h, id, Ts) == IF Ts = <<>> THEN h
                    ELSE TfSeq(Tf1(h, id, Head(Ts)), id, Tail(Ts))

------------------------------------------------------------------------------
(* Construction *)

NewObj(id, r) == heap' = Put(heap, id, r)

GenRec(e) == IF e.kind = "null" THEN [k |-> "null"]
             ELSE [k |-> "crystal", o |-> e.o, B |-> e.B, D |-> e.D, sites |-> e.sites]

(* optional parameters *)
Opt(e, f, d) == IF f \in DOMAIN e THEN e[f] ELSE d

(* an attached generator may be given an origin of its own *)
Attach(g, org) == IF org = <<>> \/ g.k # "crystal" THEN g ELSE [g EXCEPT !.o = org]

NewGen(e) == NewObj(e.id, GenRec(e))
NewAlg(e) == NewObj(e.id, [k |-> "alg", a |-> e.a])
NewVol(e) ==
  NewObj(e.id,
    [k |-> "vol", pts |-> e.pts, planes |-> HullPlanes(e.pts),
     algs |-> [i \in DOMAIN e.algs |-> heap[e.algs[i]].a],
     gen |-> IF e.gen = "" THEN NoGen ELSE Attach(heap[e.gen], e.org),
     prio |-> e.prio, enc |-> e.enc, tol |-> Opt(e, "tol", 10)])
NewMulti(e) == NewObj(e.id, [k |-> "multi", kids |-> e.kids, prio |-> e.prio])
NewMol(e) == NewObj(e.id, [k |-> "mol", atoms |-> e.atoms, prio |-> e.prio,
                           org |-> [trk |-> e.trk, i |-> e.i, p |-> e.p]])
NewScene(e) == NewObj(e.id, [k |-> "scene", objs |-> e.objs, b |-> e.b])

(* Mutation *)
SetVol(id, r) == heap' = [heap EXCEPT ![id] = r]
AddAlg(e) == SetVol(e.id, [heap[e.id] EXCEPT !.algs = Append(@, heap[e.a].a)])
AddPts(e) == LET q == heap[e.id].pts \o e.pts IN
             SetVol(e.id, [heap[e.id] EXCEPT !.pts = q, !.planes = HullPlanes(q)])
SetPts(e) == SetVol(e.id, [heap[e.id] EXCEPT !.pts = e.pts, !.planes = HullPlanes(e.pts)])
AddGen(e) == SetVol(e.id, [heap[e.id] EXCEPT !.gen = Attach(heap[e.gen], e.org)])
SetPrio(e) == heap' = [heap EXCEPT ![e.id] = [@ EXCEPT !.prio = e.prio]]
(* the tolerance of the test against the hull, 10^-tol *)
SetTol(e) == heap' = [heap EXCEPT ![e.id] = [@ EXCEPT !.tol = e.tol]]
(* moving the origin of a free generator, or of the one a volume owns *)
SetOrg(e) == heap' = [heap EXCEPT ![e.id] =
                IF @.k = "vol" THEN [@ EXCEPT !.gen = [@ EXCEPT !.o = e.o]] ELSE [@ EXCEPT !.o = e.o]]
(* giving a generator another crystal: its origin stays *)
SetStruct(e) == heap' = [heap EXCEPT ![e.id] = [@ EXCEPT !.B = e.B, !.D = e.D, !.sites = e.sites]]
(* changing a parameter of a free surface, or of one a volume owns *)
SetAlg(e) == heap' = [heap EXCEPT ![e.id] =
                IF @.k = "vol" THEN [@ EXCEPT !.algs = [@ EXCEPT ![e.i] = e.a]] ELSE [@ EXCEPT !.a = e.a]]
MAdd(e) == heap' = [heap EXCEPT ![e.id] = [@ EXCEPT !.kids = @ \o e.kids]]
SAdd(e) == heap' = [heap EXCEPT ![e.id] = [@ EXCEPT !.objs = Append(@, e.o)]]
SetBounds(e) == heap' = [heap EXCEPT ![e.id] = [@ EXCEPT !.b = e.b]]
Transform(e) == heap' = TfSeq(heap, e.id, e.T)

(* Copying: e.map lists <<old, new>> for the copied object and, for a multi-
   volume, everything below it; e.root is the new root. *)
MapId(map, id) == LET i == CHOOSE j \in DOMAIN map : map[j][1] = id IN map[i][2]
CopyRec(e, r) ==
  CASE r.k = "multi" -> [r EXCEPT !.kids = [i \in DOMAIN @ |-> MapId(e.map, @[i])]]
    [] r.k = "vol" -> [r EXCEPT !.pts = IF e.newpts = <<>> THEN @ ELSE e.newpts,
                                !.planes = IF e.newpts = <<>> THEN @ ELSE HullPlanes(e.newpts),
                                !.gen = LET g == IF e.gen = "" THEN @ ELSE heap[e.gen]
                                        IN IF g.k = "none" THEN g ELSE Attach(g, Opt(e, "org", <<>>)),
                                !.algs = IF Opt(e, "setalgs", FALSE) THEN [i \in DOMAIN e.algs |-> heap[e.algs[i]].a] ELSE @,
                                !.tol = LET t == Opt(e, "tol", 0) IN IF t = 0 THEN @ ELSE t,
                                !.prio = IF e.setprio THEN e.prio ELSE @]
    [] OTHER -> r
Copied(e) ==
  LET news == {e.map[i][2] : i \in DOMAIN e.map} IN
  [x \in DOMAIN heap \cup news |->
     IF x \in news
     THEN CopyRec(e, heap[e.map[CHOOSE i \in DOMAIN e.map : e.map[i][2] = x][1]])
     ELSE heap[x]]
Copy(e) == heap' = TfSeq(Copied(e), e.root, e.T)

(* A grain boundary: volume e.vol cut by plane e.a.  The inner grain has
   precedence; each grain is the crystal e.gen rotated about the origin of
   space, by the smallest rotation that takes its zone axis to +Z. *)
ZoneAxis(g, z) == [j \in 1..3 |-> z[1] * g.B[1][j] + z[2] * g.B[2][j] + z[3] * g.B[3][j]]
Grain(e, i) ==
  LET v == heap[e.vol]
      T == [N |-> e.N[i], d |-> e.d[i], c |-> <<0, 0, 0>>, t |-> <<0, 0, 0>>, lk |-> TRUE, bo |-> FALSE]
  IN [v EXCEPT !.gen = TfGen(T, heap[e.gen]),
               !.algs = IF i = 1 THEN Append(@, heap[e.a].a) ELSE @,
               !.prio = IF i = 1 THEN @ ELSE @ + 1]
GrainBoundary(e) ==
  IF 0 \in RangeOf(e.d) THEN UNCHANGED heap
  ELSE heap' = Put(Put(Put(heap, e.id \o "~1", Grain(e, 1)), e.id \o "~2", Grain(e, 2)),
                   e.id, [k |-> "multi", kids |-> <<e.id \o "~1", e.id \o "~2">>, prio |-> 0])
OrientationOk(g, z, N, d) ==
  LET Z == ZoneAxis(g, z)
      u == IF Z[1] = 0 /\ Z[2] = 0 THEN <<1, 0, 0>> ELSE <<Z[2], -Z[1], 0>>    \* normal to both axes
      NZ == MatVec(N, Z)
  IN /\ \A i, j \in 1..3 : Dot(N[i], N[j]) = (IF i = j THEN d * d ELSE 0)
     /\ Dot(N[1], Cross(N[2], N[3])) > 0
     /\ NZ[1] = 0 /\ NZ[2] = 0 /\ NZ[3] > 0
     /\ (Z[1] # 0 \/ Z[2] # 0) => MatVec(N, u) = VMul(d, u)
     /\ (Z[1] = 0 /\ Z[2] = 0 /\ Z[3] > 0) => MatVec(N, u) = VMul(d, u)

(* Queries change nothing *)
Query == UNCHANGED heap

Act(e) ==
  CASE e.ev = "gen" -> NewGen(e)
    [] e.ev = "alg" -> NewAlg(e)
    [] e.ev = "vol" -> NewVol(e)
    [] e.ev = "multi" -> NewMulti(e)
    [] e.ev = "mol" -> NewMol(e)
    [] e.ev = "scene" -> NewScene(e)
    [] e.ev = "addalg" -> AddAlg(e)
    [] e.ev = "addpts" -> AddPts(e)
    [] e.ev = "setpts" -> SetPts(e)
    [] e.ev = "addgen" -> AddGen(e)
    [] e.ev = "prio" -> SetPrio(e)
    [] e.ev = "settol" -> SetTol(e)
    [] e.ev = "setorg" -> SetOrg(e)
    [] e.ev = "setstruct" -> SetStruct(e)
    [] e.ev = "setalg" -> SetAlg(e)
    [] e.ev = "madd" -> MAdd(e)
    [] e.ev = "sadd" -> SAdd(e)
    [] e.ev = "setbounds" -> SetBounds(e)
    [] e.ev = "tf" -> Transform(e)
    [] e.ev = "copy" -> Copy(e)
    [] e.ev = "gb" -> GrainBoundary(e)
    [] e.ev \in {"populate", "probe", "audit", "reject", "accept", "supply", "export", "crash", "parts"} -> Query
=============================================================================
