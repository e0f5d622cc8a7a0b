------------------------------- MODULE CZSurf -------------------------------
(***************************************************************************)
(* Adsorbates (C21).  Units of 1/1000 Angstrom along the axes of the host   *)
(* crystal, whose atoms are at e.a * p for the integer points p of e.P      *)
(* (its origin and orientation play no part).  The probe is larger than     *)
(* half the body diagonal of the cells, so that a ball that touches an atom *)
(* and contains none exists only if one of the six next sites is empty; the *)
(* atom is outside if one of these empty sites is not enclosed.             *)
(***************************************************************************)
EXTENDS CZGeom

SixWays == {<<1,0,0>>, <<0,1,0>>, <<0,0,1>>, <<0-1,0,0>>, <<0,0-1,0>>, <<0,0,0-1>>}

OutsideAtoms(e) ==
  LET S == RangeOf(e.P)
      Enclosed(q) == /\ \E p \in S : p[2] = q[2] /\ p[3] = q[3] /\ p[1] < q[1]
                     /\ \E p \in S : p[2] = q[2] /\ p[3] = q[3] /\ p[1] > q[1]
                     /\ \E p \in S : p[1] = q[1] /\ p[3] = q[3] /\ p[2] < q[2]
                     /\ \E p \in S : p[1] = q[1] /\ p[3] = q[3] /\ p[2] > q[2]
  IN {i \in DOMAIN e.P : \E d \in SixWays : LET q == VAdd(e.P[i], d) IN q \notin S /\ ~Enclosed(q)}

Passes(e, f, i) ==
  CASE f.k = "element" -> e.el[i] \in RangeOf(f.v)
    [] f.k = "mask" -> (i - 1) \in RangeOf(f.v)
    [] f.k = "indices" -> (i - 1) \in RangeOf(f.v)
    [] f.k = "spatial" -> Dot(f.w, e.P[i]) <= f.c
Eligible(e) == {i \in OutsideAtoms(e) : \A j \in DOMAIN e.F : Passes(e, e.F[j], i)}

(* inside of the volume: "in", "out", or within the rounding of its boundary *)
Side(e, y) ==
  LET hin == \A j \in DOMAIN e.H : Dot(e.H[j].w, y) <= e.H[j].c - 3 * Norm1(e.H[j].w)
      hout == \E j \in DOMAIN e.H : Dot(e.H[j].w, y) > e.H[j].c + 3 * Norm1(e.H[j].w)
      far(j) == \E i \in 1..3 : Abs(y[i] - e.S[j].c[i]) > e.S[j].r + 10
      sin == \A j \in DOMAIN e.S : ~far(j) /\ Norm2(VSub(y, e.S[j].c)) < (e.S[j].r - 3) * (e.S[j].r - 3)
      sout == \E j \in DOMAIN e.S : far(j) \/ Norm2(VSub(y, e.S[j].c)) > (e.S[j].r + 3) * (e.S[j].r + 3)
  IN IF hout \/ sout THEN "out" ELSE IF hin /\ sin THEN "in" ELSE "edge"

RoundDiv(a, b) == (2 * a + b) \div (2 * b)
(* v turned about n (of length L) by an angle of cosine c/1000, sine s/1000 *)
Turned(v, n, L, c, s) ==
  LET x == Cross(n, v)
      d == RoundDiv(Dot(n, v), L)
  IN [i \in 1..3 |-> RoundDiv(c * v[i] + s * RoundDiv(x[i], L) + (1000 - c) * RoundDiv(n[i] * d, L), 1000)]

Tenth(v) == <<v[1] \div 10, v[2] \div 10, v[3] \div 10>>
AdsClauses(e) ==
  LET El == Eligible(e)
      k == e.idx + 1
      n == Len(e.m)
      At(i) == VMul(e.a, e.P[i])
      Bond(i) == VSub(e.out[k], At(i))
      v == VSub(e.out[e.vec + 1], e.out[k])
      Length(i) == LET b == Bond(i) IN /\ \A j \in 1..3 : Abs(b[j]) <= e.L + 20
                                       /\ Abs(Norm2(b) - e.L * e.L) <= 8 * e.L
      Along(i) == n = 1 \/ LET b == Bond(i) x == Cross(v, b) IN
                    /\ Norm1(x) <= 12 * (Norm1(v) + Norm1(b)) /\ Dot(v, b) > 0
      Face(i) == LET T == {d \in SixWays : VAdd(e.P[i], d) \notin RangeOf(e.P) /\ Dot(d, e.P[i]) = MaxOf({Dot(d, p) : p \in RangeOf(e.P)})}
                 IN IF Cardinality(T) = 1 THEN CHOOSE d \in T : TRUE ELSE Zero
      Pts == IF e.target = 0 - 1 THEN DOMAIN e.P ELSE {e.target + 1}
      T0 == {i \in Pts : Length(i)}
      D(u, i, j) == Norm2(VSub(u[i], u[j]))
      Triple(u, a, b, c) == Dot(Tenth(VSub(u[a], u[1])), Cross(Tenth(VSub(u[b], u[1])), Tenth(VSub(u[c], u[1]))))
      inside == \E i \in 1..n : Side(e, e.out[i]) = "in"
      unsure == \E i \in 1..n : Side(e, e.out[i]) = "edge"
  IN IF e.exc # "" THEN (IF Cardinality(El) <= e.few THEN {} ELSE {"unexpected-" \o e.exc})
     ELSE IF Len(e.out) # n THEN {"number-of-atoms"}
     ELSE IF e.far THEN {"not-near-the-volume"}
     ELSE (IF \A i, j \in 1..n : Abs(D(e.out, i, j) - D(e.m, i, j)) <= 4 * Norm1(VSub(e.m[i], e.m[j])) + 20 THEN {} ELSE {"not-rigid"})
       \cup (IF \A a, b, c \in 2..n : LET t == Triple(e.m, a, b, c) IN Abs(t) < 400000 \/ Sign(t) = Sign(Triple(e.out, a, b, c))
             THEN {} ELSE {"mirrored-molecule"})
       \cup (IF e.sp THEN {} ELSE {"species-changed"})
       \cup (IF T0 = {} THEN {"wrong-bond-length"}
             ELSE IF T0 \cap El = {} THEN {"bonded-to-an-ineligible-atom"}
             ELSE IF ~(\E i \in T0 \cap El : Along(i)) THEN {"direction-not-along-the-bond"}
             ELSE IF e.faced /\ ~(\E i \in T0 \cap El : Face(i) = Zero \/ (Along(i) /\ 2 * Dot(Face(i), Bond(i)) >= e.L))
                  THEN {"bond-not-out-of-the-face"} ELSE {})
       \cup (IF e.success = "?" \/ (unsure /\ ~inside) THEN {}
             ELSE IF (e.success = "yes") = ~inside THEN {} ELSE {"wrong-success"})
       \cup (IF e.same THEN {} ELSE {"inputs-changed"})
       \cup (IF e.repeats THEN {} ELSE {"not-reproducible"})
       \cup (IF e.out2 = <<>> \/ T0 \cap El = {} THEN {}
             ELSE IF \E i \in T0 \cap El : \A j \in 1..n :
                       LET w == Turned(VSub(e.out[j], e.out[k]), Bond(i), e.L, e.c, e.s)
                           g == VSub(e.out2[j], e.out[k])
                       IN \A h \in 1..3 : Abs(w[h] - g[h]) <= 25
             THEN {} ELSE {"wrong-rotation-about-the-bond"})

SurfFns == {"ads"}
SurfClauses(e) == AdsClauses(e)
=============================================================================
