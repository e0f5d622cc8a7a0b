----------------------------- MODULE TraceWorld -----------------------------
(***************************************************************************)
(* Validates histories recorded from the real library against CZWorld.     *)
(* A trace file holds many histories; each is one initial state.  Every    *)
(* event is consumed: it makes its CZWorld step, and whatever was observed *)
(* is compared with what the specification says.  Verdicts are total: the  *)
(* names of failing clauses are printed and the history goes on.           *)
(***************************************************************************)
EXTENDS CZWorld, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.CZ_TRACE)

VARIABLES tr, l, bad

tvars == <<heap, tr, l, bad>>

Ev == Traces[tr].events[l]
IsEvent == l <= Len(Traces[tr].events)

(* ---- observations ---- *)
ObsSet(as) == RangeOf(as)

AtomClauses(id, o) ==
  LET exp == AtomsOf(heap, id) IN
  (IF o.off > 0 THEN {"off-grid-atom"} ELSE {})
  \cup (IF Len(o.atoms) # Cardinality(ObsSet(o.atoms)) /\ Len(o.atoms) # NumAtoms(heap, id) THEN {"duplicated-atom"} ELSE {})
  \cup (IF \E a \in ObsSet(o.atoms) : a \notin exp THEN {"extraneous-atom"} ELSE {})
  \cup (IF \E a \in exp : a \notin ObsSet(o.atoms) THEN {"missing-atom"} ELSE {})

(* what each object of a scene contributes: what remains of its own atoms *)
PartClauses(e) ==
  LET objs == heap[e.id].objs IN
  (IF \E i \in DOMAIN e.parts : e.parts[i].off > 0 THEN {"off-grid-atom"} ELSE {})
  \cup (IF Len(e.parts) # Len(objs) \/ {e.parts[i].o : i \in DOMAIN e.parts} # RangeOf(objs) THEN {"members"}
        ELSE IF \A i \in DOMAIN e.parts :
                  LET j == CHOOSE k \in DOMAIN objs : objs[k] = e.parts[i].o IN
                  RangeOf(e.parts[i].pos) = {Pos(a) : a \in Remaining(heap, objs, j)}
             THEN {} ELSE {"wrong-contribution"})

(* a generator covers the hull of the points it is asked about (which may be
   flat: the hull planes of a set without volume are not used then) *)
SupplyClauses(g, e) ==
  LET o == e.obs
      S == ObsSet(o.atoms)
      pl == HullPlanes(e.pts)
      need == IF g.k # "crystal" THEN {}
              ELSE IF Len(e.pts) < 4
                   THEN {<<p[1], p[2], p[3], s.z>> : p \in {q \in RangeOf(e.pts) : FALSE}, s \in RangeOf(g.sites)}
                   ELSE SitesIn(g, RangeOf(e.pts), LAMBDA x : InHull(pl, x))
  IN (IF o.off > 0 THEN {"off-grid-atom"} ELSE {})
     \cup (IF Len(o.atoms) # Cardinality(S) THEN {"duplicated-atom"} ELSE {})
     \cup (IF \E a \in S : ~ IsSite(g, Pos(a), a[4]) THEN {"not-a-site"} ELSE {})
     \cup (IF \E a \in need : a \notin S THEN {"uncovered-site"} ELSE {})

(* an exported structure: the atoms, for scenes a cell as large as the bounds
   (where the format keeps one), Debye-Waller displacements in 1/1000 Angstrom *)
ExportClauses(e) ==
  LET r == heap[e.id] IN
  AtomClauses(e.id, e.obs)
  \cup (IF e.cell # <<>> /\ r.k = "scene" /\ e.cell # VSub(r.b[2], r.b[1]) THEN {"wrong-cell"} ELSE {})
  \cup (IF \A i \in DOMAIN e.rms :
             LET given == {j \in DOMAIN e.given : e.given[j][1] = e.rms[i][1]} IN
             Abs(e.rms[i][2] - (IF given = {} THEN 100 ELSE e.given[CHOOSE j \in given : TRUE][2])) <= 1
        THEN {} ELSE {"wrong-debye-waller-factor"})
  \cup (IF e.same THEN {} ELSE {"object-changed"})

ProbeClauses(e) ==
  (IF Len(e.res) # Len(e.pts) THEN {"probe-length"}
   ELSE (IF \E i \in DOMAIN e.pts : (e.res[i] = 1) /\ ~ In(heap, e.id, e.pts[i])
         THEN {"outside-point-interior"} ELSE {})
        \cup (IF \E i \in DOMAIN e.pts : (e.res[i] = 0) /\ In(heap, e.id, e.pts[i])
              THEN {"inside-point-not-interior"} ELSE {}))

(* attributes as logged: bases, origins, points and centres on the grid;
   normals and axes rounded to 1/10000 *)
Parallel(n, m) == /\ Dot(n, m) > 0
                  /\ LET c == Cross(n, m) IN \A i \in 1..3 : Abs(c[i]) <= Norm1(n)
Collinear(n, m) == Parallel(n, m) \/ Parallel(n, VNeg(m))

AlgClauses(a, o) ==
  IF o.off > 0 THEN {"surface-off-grid"}
  ELSE IF a.t # o.t THEN {"surface-kind"}
  ELSE CASE a.t = "pl" -> (IF Parallel(a.n, o.n) THEN {} ELSE {"plane-normal"})
                          \cup (IF Dot(a.n, VSub(o.p, a.p)) = 0 THEN {} ELSE {"plane-point"})
         [] a.t = "sp" -> (IF a.c = o.c THEN {} ELSE {"sphere-center"})
                          \cup (IF a.r = o.r THEN {} ELSE {"sphere-radius"})
         [] a.t = "cy" -> (IF Collinear(a.a, o.a) THEN {} ELSE {"cylinder-axis"})
                          \cup (IF a.p = o.p THEN {} ELSE {"cylinder-point"})
                          \cup (IF a.r = o.r /\ a.len = o.len THEN {} ELSE {"cylinder-size"})

GenClauses(g, o) ==
  IF o.off > 0 THEN {"generator-off-grid"}
  ELSE IF g.k # o.k THEN {"generator-kind"}
  ELSE IF g.k # "crystal" THEN {}
  ELSE (IF g.o = o.o THEN {} ELSE {"generator-origin"})
       \cup (IF g.B = o.B THEN {} ELSE {"generator-bases"})

ObjClauses(o) ==
  IF o.id \notin DOMAIN heap THEN {"unknown-object"}
  ELSE LET r == heap[o.id] IN
  IF r.k = "vol" THEN
      (IF r.prio = o.prio THEN {} ELSE {"priority"})
      \cup (IF r.tol = o.tol THEN {} ELSE {"tolerance"})
      \cup (IF o.off = 0 /\ RangeOf(o.pts) = RangeOf(r.pts) /\ Len(o.pts) = Len(r.pts)
            THEN {} ELSE {"volume-points"})
      \cup (IF Len(o.algs) # Len(r.algs) THEN {"volume-surfaces"}
            ELSE UNION {AlgClauses(r.algs[i], o.algs[i]) : i \in DOMAIN r.algs})
      \cup GenClauses(r.gen, o.gen)
  ELSE IF r.k = "alg" THEN AlgClauses(r.a, o.a)
  ELSE IF r.k \in {"crystal", "null"} THEN GenClauses(r, o.gen)
  ELSE IF r.k = "mol" THEN
      (IF r.prio = o.prio THEN {} ELSE {"priority"})
      \cup (IF o.off = 0 /\ o.atoms = r.atoms THEN {} ELSE {"molecule-atoms"})
      \cup (IF o.ooff = 0 /\ o.org = (IF r.org.trk THEN Pos(r.atoms[r.org.i]) ELSE r.org.p)
            THEN {} ELSE {"molecule-origin"})
  ELSE IF r.k = "multi" THEN
      (IF r.prio = o.prio THEN {} ELSE {"priority"})
      \cup (IF RangeOf(o.kids) = RangeOf(r.kids) /\ Len(o.kids) = Len(r.kids)
            THEN {} ELSE {"members"})
  ELSE (IF RangeOf(o.objs) = RangeOf(r.objs) /\ Len(o.objs) = Len(r.objs)
        THEN {} ELSE {"members"})
       \cup (IF o.b = r.b THEN {} ELSE {"bounds"})

Clauses(e) ==
  IF e.ev = "reject"
  THEN (IF e.exc = "" THEN {"invalid-request-accepted"}
        ELSE IF e.exc = "TimeoutError" THEN {"timeout"} ELSE {})
       \cup (IF e.b = e.a THEN {} ELSE {"rejected-request-left-traces"})
  ELSE IF e.exc # "" THEN {"unexpected-" \o e.exc}
  ELSE CASE e.ev = "populate" -> AtomClauses(e.id, e.obs)
         [] e.ev = "probe" -> ProbeClauses(e)
         [] e.ev = "parts" -> PartClauses(e)
         [] e.ev = "gb" -> UNION {IF e.d[i] # 0 /\ OrientationOk(heap[e.gen], e.z[i], e.N[i], e.d[i]) THEN {}
                                  ELSE {"grain-orientation"} : i \in 1..2}
         [] e.ev = "accept" -> IF e.b = e.a THEN {} ELSE {"value-not-taken-over"}
         [] e.ev = "export" -> ExportClauses(e)
         [] e.ev = "supply" -> SupplyClauses(heap[e.id], e)
         [] e.ev = "audit" -> UNION {ObjClauses(e.objs[i]) : i \in DOMAIN e.objs}
         [] OTHER -> {}

TInit == /\ tr \in 1..Len(Traces)
         /\ l = 1
         /\ bad = {}
         /\ heap = <<>>

TNext == /\ IsEvent
         /\ Act(Ev)
         /\ LET c == Clauses(Ev) IN
            /\ bad' = bad \cup c
            /\ c # {} => PrintT("CZVIOL " \o ToString(tr) \o " " \o ToString(l) \o " " \o Ev.ev \o " " \o ToString(c))
         /\ l' = l + 1
         /\ tr' = tr

TSpec == TInit /\ [][TNext]_tvars

(* for replaying a single history: stops at the first event that fails *)
Conforms == bad = {}
=============================================================================
