------------------------------ MODULE CZField ------------------------------
(***************************************************************************)
(* Generators with strain fields (C10) and post-transforms (C11).          *)
(* State: [g |-> crystal, s |-> strain, post |-> sequence].                *)
(*                                                                         *)
(* Pipeline: sites of the crystal -> post-transforms in order -> strain -> *)
(* cut by the volume.                                                      *)
(*                                                                         *)
(* strain: [k |-> "none"]                                                  *)
(*   [k |-> "h", vals, q, mode, fix, o]   homogeneous, values vals/q        *)
(*   [k |-> "i", f, a, c, mode, fix, o]   user function f with parameters   *)
(* Positions are integers (1/180 Angstrom); images under strain are        *)
(* fractions num/den, and observed ones are rounded to the grid.           *)
(***************************************************************************)
EXTENDS CZGeom

(* 3, 6 (Voigt) and 9 values: rows of the strain matrix *)
StrainMatrix(v) ==
  CASE Len(v) = 3 -> << <<v[1], 0, 0>>, <<0, v[2], 0>>, <<0, 0, v[3]>> >>
    [] Len(v) = 6 -> << <<v[1], v[6], v[5]>>, <<v[6], v[2], v[4]>>, <<v[5], v[4], v[3]>> >>
    [] Len(v) = 9 -> << <<v[1], v[2], v[3]>>, <<v[4], v[5], v[6]>>, <<v[7], v[8], v[9]>> >>

(* basis vectors in whole Angstrom *)
Bsmall(g) == [j \in 1..3 |-> VDiv(g.B[j], 180)]
DetB(b) == Dot(b[1], Cross(b[2], b[3]))
(* det * fractional coordinates * 180 of a vector d *)
FracNum(b, d) == <<Dot(Cross(b[2], b[3]), d), Dot(Cross(b[3], b[1]), d), Dot(Cross(b[1], b[2]), d)>>
FromFrac(b, f) == VAdd(VAdd(VMul(f[1], b[1]), VMul(f[2], b[2])), VMul(f[3], b[3]))

StrainOrigin(g, s) == IF s.fix THEN s.o ELSE g.o

(* image of x as <<numerator, denominator>> *)
Frac(num, den) == IF den < 0 THEN <<VNeg(num), 0 - den>> ELSE <<num, den>>
Strained(g, s, x) ==
  IF s.k = "none" THEN <<x, 1>>
  ELSE
  LET o == StrainOrigin(g, s)
      d == VSub(x, o)
      b == Bsmall(g)
      D == DetB(b)
      Shift(num, den) == Frac(VAdd(VMul(den, o), num), den)
  IN CASE s.k = "h" /\ s.mode = "standard" -> Shift(MatVec(Transpose(StrainMatrix(s.vals)), d), s.q)
       [] s.k = "h" /\ s.mode = "crystal" ->
            Shift(FromFrac(b, MatVec(Transpose(StrainMatrix(s.vals)), FracNum(b, d))), s.q * D)
       (* x1 + a x2^2 (Angstrom), all of it inhomogeneous *)
       [] s.f = "quad" /\ s.mode = "standard" -> Shift(<<1800 * d[1] + s.a * d[2] * d[2], 1800 * d[2], 1800 * d[3]>>, 1800)
       (* the same in fractional coordinates, for cells with orthogonal axes *)
       [] s.f = "quad" /\ s.mode = "crystal" ->
            LET den == 1800 * b[2][2] * b[2][2] IN
            Shift(<<den * d[1] + s.a * b[1][1] * d[2] * d[2], den * d[2], den * d[3]>>, den)
       (* a constant added to the coordinates in the frame of the mode *)
       [] s.f = "const" /\ s.mode = "standard" -> Shift(VAdd(VMul(10, d), VMul(180, VMul(s.a, s.c))), 10)
       [] s.f = "const" /\ s.mode = "crystal" -> Shift(VAdd(VMul(10, d), VMul(180, VMul(s.a, FromFrac(b, s.c)))), 10)
       (* a cyclic permutation of the coordinates *)
       [] s.f = "cyc" /\ s.mode = "standard" -> Shift(<<d[2], d[3], d[1]>>, 1)
       [] s.f = "cyc" /\ s.mode = "crystal" -> LET n == FracNum(b, d) IN Shift(FromFrac(b, <<n[2], n[3], n[1]>>), D)

(* integers a rounded value of num/den may be *)
Rounds(num, den) == {r \in {num \div den, (num \div den) + 1} : 2 * Abs(r * den - num) <= den}
RoundedImages(f) == Rounds(f[1][1], f[2]) \X Rounds(f[1][2], f[2]) \X Rounds(f[1][3], f[2])

------------------------------------------------------------------------------
(* post-transforms on <<x, y, z, species>> *)
SubOf(p, z) == IF \E i \in DOMAIN p.t : p.t[i] = z
               THEN p.s[CHOOSE i \in DOMAIN p.t : p.t[i] = z] ELSE z
Post1(p, a) ==
  CASE p.k = "sub" -> IF p.all THEN <<a[1], a[2], a[3], SubOf(p, a[4])>> ELSE a
    [] p.k = "shift" -> <<a[1] + p.v[1], a[2] + p.v[2], a[3] + p.v[3], a[4]>>
    [] p.k = "neg" -> <<0 - a[1], a[2], a[3], a[4]>>
    [] p.k = "plus" -> <<a[1], a[2], a[3], a[4] + p.v>>
RECURSIVE PostAll(_, _)
PostAll(ps, a) == IF ps = <<>> THEN a ELSE PostAll(Tail(ps), Post1(Head(ps), a))

------------------------------------------------------------------------------
FieldStep(st, e) ==
  CASE e.fn = "f_gen" -> [g |-> [k |-> "crystal", o |-> e.o, B |-> e.B, D |-> e.D, sites |-> e.sites],
                          s |-> [k |-> "none"], post |-> <<>>]
    [] e.fn = "f_strain" -> [st EXCEPT !.s = e.s]
    [] e.fn = "f_post" -> [st EXCEPT !.post = e.post]
    [] e.fn = "f_org" -> [st EXCEPT !.g = [@ EXCEPT !.o = e.o]]
    [] e.fn = "f_tf" -> [st EXCEPT !.g = MapGen(e.T, @, e.T)]
    [] OTHER -> st

Images(st, a) == LET b == PostAll(st.post, a) f == Strained(st.g, st.s, <<b[1], b[2], b[3]>>) IN
                 {<<p[1], p[2], p[3], b[4]>> : p \in RoundedImages(f)}

(* plain: the atoms of the same crystal without strain and post-transforms *)
FieldSupply(st, e) ==
  LET P == RangeOf(e.plain) S == RangeOf(e.obs) IN
  (IF \A a \in P : IsSite(st.g, <<a[1], a[2], a[3]>>, a[4]) THEN {} ELSE {"not-a-site"})
  \cup (IF Len(e.plain) = Len(e.obs) THEN {} ELSE {"number-of-atoms"})
  \cup (IF \A a \in P : Images(st, a) \cap S # {} THEN {} ELSE {"wrong-image"})
  \cup (IF Cardinality(S) = Len(e.obs) /\ Cardinality(P) = Len(e.plain) THEN {} ELSE {"repeated-atom"})
  \cup (IF e.same THEN {} ELSE {"generator-changed"})

(* the strain field / the post-transform applied to points of the caller's own *)
FieldApply(st, e) ==
  (IF Len(e.obs) # Len(e.xs) THEN {"number-of-atoms"}
   ELSE IF \A i \in DOMAIN e.xs :
             IF e.post THEN e.obs[i] = PostAll(st.post, e.xs[i])
             ELSE LET f == Strained(st.g, st.s, <<e.xs[i][1], e.xs[i][2], e.xs[i][3]>>) IN
                  e.obs[i] \in {<<p[1], p[2], p[3], e.xs[i][4]>> : p \in RoundedImages(f)}
        THEN {} ELSE {"wrong-image"})
  \cup (IF e.again = e.obs THEN {} ELSE {"not-repeatable"})
  \cup (IF e.same THEN {} ELSE {"input-modified"})

(* cut by a box lo..hi whose faces no image lies on *)
InBox(e, p, m) == \A k \in 1..3 : p[k] >= e.lo[k] + m /\ p[k] <= e.hi[k] - m
FieldVolume(st, e) ==
  LET P == RangeOf(e.plain) S == RangeOf(e.obs)
      all == UNION {Images(st, a) : a \in P}
  IN (IF \A a \in S : a \in all THEN {} ELSE {"wrong-image"})
     \cup (IF \A a \in S : InBox(e, a, 0 - 1) THEN {} ELSE {"outside-volume"})
     \cup (IF \A a \in P : (\A q \in Images(st, a) : InBox(e, q, 2)) => Images(st, a) \cap S # {}
           THEN {} ELSE {"missing-atom"})
     \cup (IF Cardinality(S) = Len(e.obs) THEN {} ELSE {"repeated-atom"})

------------------------------------------------------------------------------
(* a substitution applied to arrays; f/1000 is the fraction *)
SubClauses(e) ==
  LET n == Len(e.zs)
      Cnt(t) == Cardinality({i \in 1..n : e.zs[i] = t})
      Rep(t) == Cardinality({i \in 1..n : e.zs[i] = t /\ e.out[i] # t})
  IN IF Len(e.out) # n THEN {"number-of-atoms"}
     ELSE (IF \A i \in 1..n : \/ e.out[i] = e.zs[i]
                              \/ (e.out[i] = SubOf(e, e.zs[i])) THEN {} ELSE {"wrong-substitute"})
          \cup (IF e.f = 1000 /\ \E i \in 1..n : e.out[i] # SubOf(e, e.zs[i]) THEN {"not-all-replaced"} ELSE {})
          \cup (IF e.f = 0 /\ \E i \in 1..n : e.out[i] # e.zs[i] THEN {"replaced-at-zero"} ELSE {})
          \cup (IF \A k \in DOMAIN e.t :
                      e.t[k] = e.s[k] \/
                      LET c == Cnt(e.t[k]) d == Abs(1000 * Rep(e.t[k]) - e.f * c) \div 100 IN
                      (* within six standard deviations *)
                      d * d <= 36 * ((c * e.f * (1000 - e.f)) \div 10000) + 200
                THEN {} ELSE {"proportion"})
          \cup (IF e.again = e.out THEN {} ELSE {"seed-not-reproducible"})
          \cup (IF e.same THEN {} ELSE {"input-modified"})
          \cup (IF e.pos THEN {} ELSE {"positions-changed"})

FieldClauses(st, e) ==
  IF e.exc # "" THEN {"unexpected-" \o e.exc}
  ELSE CASE e.fn = "f_supply" -> FieldSupply(st, e)
         [] e.fn = "f_app" -> FieldApply(st, e)
         [] e.fn = "f_vol" -> FieldVolume(st, e)
         [] e.fn = "f_sub" -> SubClauses(e)
         [] OTHER -> {}
=============================================================================
