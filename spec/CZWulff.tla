------------------------------ MODULE CZWulff ------------------------------
(***************************************************************************)
(* Wulff and Winterbottom constructions of cubic crystals (C23).            *)
(*                                                                         *)
(* The specified shape is the intersection of the half spaces               *)
(*     n.x <= s * energy(n)      for all n of all given families             *)
(* (and of the interface).  Energies in 1/1000; planes of the constructed    *)
(* volume are given in the frame of its crystal, unit normals in 1/10000,    *)
(* distances from the centre in 1/1000 Angstrom.                             *)
(***************************************************************************)
EXTENDS CZStack

Perm3 == {p \in (1..3) \X (1..3) \X (1..3) : p[1] # p[2] /\ p[2] # p[3] /\ p[1] # p[3]}
Signs3 == {1, 0 - 1} \X {1, 0 - 1} \X {1, 0 - 1}
(* all planes equivalent to hkl in the full cubic symmetry *)
Family(h) == {<<s[1] * h[p[1]], s[2] * h[p[2]], s[3] * h[p[3]]>> : p \in Perm3, s \in Signs3}
(* half space of shape hkl with energy g:  hkl.x <= g |hkl| *)
Half(h, g) == [w |-> h, c |-> LET r == Root(g * g * Norm2(h)) IN IF g < 0 THEN 0 - r ELSE r, g |-> g]
Facets(e) == (UNION {{Half(h, e.fam[i].g) : h \in Family(e.fam[i].h)} : i \in DOMAIN e.fam})
             \cup (IF e.itf.none THEN {} ELSE {Half(e.itf.h, e.itf.g)})

(* plane p of the volume has the normal hkl *)
IsNormal(n, h) == /\ \A i \in 1..3 : Abs(Cross(n, h)[i]) <= 12 * (Abs(h[1]) + Abs(h[2]) + Abs(h[3]))
                  /\ Dot(n, h) > 0
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})

(* volume of the shape for s = 1, times 1000: lengths of columns along axis z over a grid of (X, Y); an eighth of it when symmetric *)
UnitVolume(F, V, sym, z) ==
  LET A == << (z % 3) + 1, ((z + 1) % 3) + 1, z >>
      N == IF sym THEN 16 ELSE 32
      lo == [i \in 1..3 |-> IF sym THEN 0 ELSE MinOf({FloorDiv(v[1][A[i]], v[2]) : v \in V})]
      hi == [i \in 1..3 |-> MaxOf({CeilDiv(v[1][A[i]], v[2]) : v \in V})]
      F1 == IF sym THEN {f \in F : \A i \in 1..3 : f.w[i] >= 0} ELSE F
      At(a, i) == lo[a] + ((2 * i - 1) * (hi[a] - lo[a])) \div (2 * N)
      Col(x, y) ==
        LET R(f) == f.c - f.w[A[1]] * x - f.w[A[2]] * y
            up == MinOf({FloorDiv(R(f), f.w[z]) : f \in {g \in F1 : g.w[z] > 0}} \cup {hi[3]})
            dn == MaxOf({CeilDiv(0 - R(f), 0 - f.w[z]) : f \in {g \in F1 : g.w[z] < 0}} \cup {lo[3]})
        IN IF (\E f \in F1 : f.w[z] = 0 /\ R(f) < 0) \/ up <= dn THEN 0 ELSE up - dn
      RECURSIVE Sum(_, _)
      Sum(q, n) == IF n = 0 THEN 0 ELSE q[n] + Sum(q, n - 1)
      row == [i \in 1..N |-> Sum([j \in 1..N |-> Col(At(1, i), At(2, j))], N)]
      mean == (Sum(row, N) * 4) \div (N * N)                              (* mean length, in 1/4000 *)
      area == ((hi[1] - lo[1]) * (hi[2] - lo[2])) \div 1000
  IN ((mean * area) \div 4000) * (IF sym THEN 8 ELSE 1)

WulffClauses(e) ==
  LET F == Facets(e)
      Of(p) == {f \in F : IsNormal(p.n, f.w)}
      used == UNION {Of(e.planes[i]) : i \in DOMAIN e.planes}
      U == SetSeq(used)
      V == HsVertices(U)
      ok == e.planes # <<>> /\ \A i \in DOMAIN e.planes : Of(e.planes[i]) # {}
      (* the interface may be parallel to one of the facets: the plane then has the lower energy *)
      En(p) == MinOf({f.g : f \in Of(p)})
      main == CHOOSE i \in DOMAIN e.planes : \A j \in DOMAIN e.planes : En(e.planes[i]) >= En(e.planes[j])
      D == e.planes[main].d  G == En(e.planes[main])
      proportional == \A i \in DOMAIN e.planes : \E f \in Of(e.planes[i]) :
                        Abs(e.planes[i].d * G - f.g * D) <= 3 * G + 2 * (D \div 500) * (Abs(f.g) \div 2)
      tight(f) == \A v \in V : Dot(f.w, v[1]) <= (f.c + 12) * v[2]
      s == (D * 100) \div G                                             (* scale in 1/100 Angstrom *)
      s3 == IF s > 12000 THEN 0 ELSE (((s * s) \div 1000) * s) \div 100   (* its cube, in 1/10 cubic Angstrom *)
      unit == UnitVolume(F, V, e.itf.none, IF e.itf.none THEN 3 ELSE CHOOSE i \in 1..3 : \A j \in 1..3 : Abs(e.itf.h[i]) >= Abs(e.itf.h[j]))
      want == (e.natoms * e.vat)                                         (* 1/1000 A^3 *)
      want3 == IF unit <= 0 THEN 0 ELSE IF want > 200000000 THEN (want \div unit) * 10 ELSE (want * 10) \div unit
      tol == 5
      cub == CHOOSE r \in 1..30 : r * r * r <= e.natoms /\ (r + 1) * (r + 1) * (r + 1) > e.natoms
  IN IF e.exc # "" THEN {"unexpected-" \o e.exc}
     ELSE IF ~ok THEN {"facet-of-no-given-family"}
     ELSE (IF proportional THEN {} ELSE {"distances-not-proportional-to-energies"})
       \cup (IF V = {} THEN {"unbounded-shape"}
             ELSE (IF \A f \in F : tight(f) THEN {} ELSE {"missing-facets"})
               \cup (IF ~(\A f \in F : tight(f)) THEN {}
                     ELSE IF Abs(s3 - want3) <= (want3 * tol) \div 100 THEN {} ELSE {"wrong-size"}))
       \cup (IF e.itf.none THEN {}
             ELSE IF \E i \in DOMAIN e.planes : IsNormal(e.planes[i].n, e.itf.h) /\ e.planes[i].down
                     /\ Abs(e.planes[i].d * G - e.itf.g * D) <= 3 * G + 2 * (D \div 500) * (Abs(e.itf.g) \div 2)
                  THEN {} ELSE {"wrong-interface"})
       \cup (IF Abs(e.count - e.natoms) <= 4 * (cub + 1) * (cub + 1) THEN {} ELSE {"number-of-atoms"})
       \cup (IF e.crystal THEN {} ELSE {"not-the-given-crystal"})
       \cup (IF e.fractions THEN {} ELSE {"facet-fractions"})
       \cup (IF e.same THEN {} ELSE {"inputs-changed"})

WulffFns == {"wulff"}
=============================================================================
