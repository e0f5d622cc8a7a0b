------------------------------ MODULE CZPlanes ------------------------------
(***************************************************************************)
(* Snapped lattice planes (C17) and bounding boxes (C25).                  *)
(***************************************************************************)
EXTENDS CZRot, CZField

(***************************************************************************)
(* C17.  Units of 1/10 Angstrom.  A crystal: origin o, basis columns B,     *)
(* moved by the motions e.Ts in turn, then strained: e.s is none or          *)
(* [m |-> 9 values, q, mode, fix, k], whose fixed origin is k cells below    *)
(* the generator's.                                                         *)
(***************************************************************************)
RECURSIVE Moved(_, _)
Moved(Ts, g) == IF Ts = <<>> THEN g ELSE Moved(Tail(Ts), MapGen(Head(Ts), g, Head(Ts)))

StrainedCell(g, s) ==
  IF s.none THEN [o |-> g.o, B |-> g.B]
  ELSE LET M == StrainMatrix(s.m)
           std == [i \in 1..3 |-> VDiv(MatVec(Transpose(M), g.B[i]), s.q)]
           cry == [i \in 1..3 |-> VDiv(Lat(g.B, M[i]), s.q)]
           B2 == IF s.mode = "standard" THEN std ELSE cry
           o0 == VSub(g.o, Lat(g.B, s.k))          (* the fixed origin *)
       IN [o |-> IF s.fix THEN VAdd(o0, Lat(B2, s.k)) ELSE g.o, B |-> B2]

SnapClauses(e) ==
  LET g == Moved(e.Ts, [k |-> "crystal", o |-> e.o, B |-> e.B])
      c == StrainedCell(g, e.s)
      B == c.B
      det == Dot(B[1], Cross(B[2], B[3]))
      G0 == VAdd(VAdd(VMul(e.h[1], Cross(B[2], B[3])), VMul(e.h[2], Cross(B[3], B[1]))),
                 VMul(e.h[3], Cross(B[1], B[2])))
      gg == GcdV(G0)
      G == IF det > 0 THEN Reduce(G0) ELSE VNeg(Reduce(G0))      (* along increasing index *)
      w == Gcd(gg, det)
      a == gg \div w
      b == Abs(det) \div w
      lev == a * Dot(G, VSub(e.p, c.o))                (* index of the point = lev / b *)
      fl == lev \div b
      on == lev % b = 0
      want == CASE e.mode = "nearest" -> {m \in {fl, fl + 1} : 2 * Abs(lev - m * b) <= b}
                [] on -> {fl}
                [] e.mode = "floor" -> {IF lev > 0 THEN fl ELSE fl + 1}
                [] e.mode = "ceil" -> {IF lev > 0 THEN fl + 1 ELSE fl}
      X == a * Dot(G, VSub(e.qh, c.o))
      Y == a * Dot(G, e.ql)
      At(m) == LET d == X - m * b IN Abs(d) <= a * Norm1(G) /\ Abs(1000 * d + Y) <= a * Norm1(G)
      nh == <<e.n[1][1], e.n[2][1], e.n[3][1]>>
      nl == <<e.n[1][2], e.n[2][2], e.n[3][2]>>
  IN (IF VIsZero(Cross(nh, G), Cross(nl, G), 4 * Mag(G)) /\ nh # Zero THEN {} ELSE {"wrong-orientation"})
     \cup (IF \E m \in want : At(m) THEN {}
           ELSE IF \E m \in (fl - 20)..(fl + 20) : At(m) THEN {"wrong-lattice-plane"}
           ELSE {"not-a-lattice-plane"})
     \cup (IF e.same THEN {} ELSE {"inputs-changed"})

(***************************************************************************)
(* C25.  A set of planes n.x <= c (integers, whole Angstroms; normals with  *)
(* components of at most 3).  Exact vertices are homogeneous <<num, den>>.  *)
(***************************************************************************)
Trip(n) == {t \in (1..n) \X (1..n) \X (1..n) : t[1] < t[2] /\ t[2] < t[3]}
VertexOf(P, t) ==
  LET n1 == P[t[1]].n n2 == P[t[2]].n n3 == P[t[3]].n
      D == Dot(n1, Cross(n2, n3))
      N == VAdd(VAdd(VMul(P[t[1]].c, Cross(n2, n3)), VMul(P[t[2]].c, Cross(n3, n1))), VMul(P[t[3]].c, Cross(n1, n2)))
  IN IF D > 0 THEN <<N, D>> ELSE <<VNeg(N), 0 - D>>
LowestTerms(v) == LET g == Gcd(GcdV(v[1]), v[2]) IN
                  IF g = 0 THEN v ELSE << <<v[1][1] \div g, v[1][2] \div g, v[1][3] \div g>>, v[2] \div g>>
Vertices(P) ==
  {LowestTerms(v) : v \in {VertexOf(P, t) : t \in {u \in Trip(Len(P)) : Dot(P[u[1]].n, Cross(P[u[2]].n, P[u[3]].n)) # 0}}}
Feasible(P) == {v \in Vertices(P) : \A i \in DOMAIN P : Dot(P[i].n, v[1]) <= P[i].c * v[2]}
Spans(P) == \E t \in Trip(Len(P)) : Dot(P[t[1]].n, Cross(P[t[2]].n, P[t[3]].n)) # 0
(* a direction in which the region never ends *)
Recedes(P) == \E i, j \in DOMAIN P : \E s \in {1, 0 - 1} :
                LET d == VMul(s, Cross(P[i].n, P[j].n)) IN
                d # Zero /\ \A k \in DOMAIN P : Dot(P[k].n, d) <= 0
(* the region has an interior: no half space touches it in a face that contains it *)
Thick(P, V) == \A i \in DOMAIN P : \E v \in V : Dot(P[i].n, v[1]) < P[i].c * v[2]

Close(q, v, tol) == \A i \in 1..3 : Abs(v[2] * q[i] - 100 * v[1][i]) <= tol * v[2]
BBoxPlanes(e) ==
  LET P == e.planes
      V == Feasible(P)
      solid == Spans(P) /\ V # {} /\ ~Recedes(P)
      flat == solid /\ ~Thick(P, V)
  IN IF e.status # 0
     THEN (IF e.verts = <<>> THEN {} ELSE {"vertices-without-success"})
          \cup (IF solid /\ ~flat THEN {"bounded-region-not-found"} ELSE {})
     ELSE IF ~solid THEN {"success-without-bounded-region"}
     ELSE (IF \A v \in V : \E q \in RangeOf(e.verts) : Close(q, v, 2) THEN {} ELSE {"missing-vertex"})
          \cup (IF \A q \in RangeOf(e.verts) : \E v \in V : Close(q, v, 2) THEN {} ELSE {"not-a-vertex"})

(* extremities (1/180 Angstrom) against a region given as in CZGeom *)
Dirs == {d \in ((0 - 2)..2) \X ((0 - 2)..2) \X ((0 - 2)..2) : d # Zero}
InRegion(e, x) == InHull(HullPlanes(e.pts), x) /\ \A i \in DOMAIN e.algs : InAlg(e.algs[i], x)
BBoxVolume(e) ==
  LET hp == HullPlanes(e.pts)
      in == {x \in RangeOf(e.probes) : InHull(hp, x) /\ \A i \in DOMAIN e.algs : InAlg(e.algs[i], x)}
      sup == [d \in Dirs |-> MaxOf({Dot(d, q) : q \in RangeOf(e.box)})]
  IN IF e.box = <<>> THEN IF in = {} \/ e.free THEN {} ELSE {"no-extremities"}
     ELSE IF \A x \in in : \A d \in Dirs : sup[d] >= Dot(d, x) - 2 * Norm1(d) THEN {} ELSE {"region-not-covered"}

(* a sphere or cylinder alone (1/180 Angstrom): support functions of the region *)
BBoxAlg(e) ==
  LET a == e.alg
      c == IF a.t = "sp" THEN a.c ELSE a.p
      Sup(d) == IF a.t = "sp" THEN a.r * ISqrt(Norm2(d) * 10000)
                ELSE (a.len * Abs(Dot(a.a, d)) * 50 * 400) \div ISqrt(Norm2(a.a) * 160000)
                     + (a.r * ISqrt(Norm2(Cross(a.a, d)) * 10000) * 400) \div ISqrt(Norm2(a.a) * 160000)
  IN IF e.box = <<>> THEN {"no-extremities"}
     ELSE IF \A d \in Dirs : \E q \in RangeOf(e.box) : 100 * Dot(d, VSub(q, c)) >= Sup(d) - 200 * Norm1(d) - Sup(d) \div 2000
     THEN {} ELSE {"region-not-covered"}

(* planes made from a hull: a probe is inside all of them iff inside the hull *)
HullToPlanes(e) ==
  LET hp == HullPlanes(e.pts) IN
  IF \A i \in DOMAIN e.probes : e.ins[i] = InHull(hp, e.probes[i]) THEN {} ELSE {"planes-do-not-bound-the-hull"}

Prism(e) ==
  LET m == IF e.centred THEN VSub(VMul(2, e.c), e.abc) ELSE Zero   (* twice the lowest corner *)
      want == {<<m[1] + 2 * x * e.abc[1], m[2] + 2 * y * e.abc[2], m[3] + 2 * z * e.abc[3]>> : x \in {0, 1}, y \in {0, 1}, z \in {0, 1}}
  IN IF RangeOf(e.box) = want /\ Len(e.box) = 8 THEN {} ELSE {"wrong-corners"}

PlaneFns == {"snap", "bb_planes", "bb_vol", "bb_alg", "hull_planes", "prism"}
PlaneClauses(e) ==
  IF e.exc # "" THEN {"unexpected-" \o e.exc}
  ELSE CASE e.fn = "snap" -> SnapClauses(e)
         [] e.fn = "bb_planes" -> BBoxPlanes(e)
         [] e.fn = "bb_vol" -> BBoxVolume(e)
         [] e.fn = "bb_alg" -> BBoxAlg(e)
         [] e.fn = "hull_planes" -> HullToPlanes(e)
         [] e.fn = "prism" -> Prism(e)
=============================================================================
