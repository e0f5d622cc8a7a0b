------------------------------- MODULE MCGeom -------------------------------
(***************************************************************************)
(* The exact geometry every verdict rests on, checked against independent  *)
(* definitions on all small cases.  Part selects what is explored:         *)
(*   "hull"    half spaces of HullPlanes  =  union of the tetrahedra (Cara- *)
(*             theodory) spanned by the points                             *)
(*   "cover"   SitesIn, which bounds the cells to visit, finds every site a *)
(*             blind search over a large range of cells finds               *)
(*   "site"    IsSite decides membership in a crystal                       *)
(*   "motion"  surfaces and hulls move with their points, under every       *)
(*             signed permutation and two rational rotations                *)
(***************************************************************************)
EXTENDS CZGeom
CONSTANTS Part, Deep
VARIABLES c, x
vars == <<c, x>>

(* ---- hull ---- *)
Grid == IF Deep THEN (0..2) \X (0..1) \X (0..2) ELSE (0..2) \X (0..1) \X (0..1)
ToSeq(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN s : i # j => s[i] # s[j]
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE y \in S : TRUE IN <<e>> \o SeqOf(S \ {e})
Quads == {q \in SUBSET Grid : Cardinality(q) = 5}
Orient(a, b, d, e) == Dot(VSub(b, a), Cross(VSub(d, a), VSub(e, a)))
InTet(a, b, d, e, y) ==
  LET v == Orient(a, b, d, e)
      s == Sign(v)
  IN v # 0 /\ s * Orient(y, b, d, e) >= 0 /\ s * Orient(a, y, d, e) >= 0
           /\ s * Orient(a, b, y, e) >= 0 /\ s * Orient(a, b, d, y) >= 0
Solid(S) == \E a, b, d, e \in S : Orient(a, b, d, e) # 0
Tets == {q \in SUBSET c : Cardinality(q) = 4}
HullOk == LET P == SeqOf(c)
              H == HullPlanes([i \in DOMAIN P |-> VMul(2, P[i])])
              T == {t \in {SeqOf(q) : q \in Tets} : Orient(t[1], t[2], t[3], t[4]) # 0}
          IN \A y \in (-1..5) \X (-1..3) \X (-1..5) :
               InHull(H, y) = (\E t \in T : InTet(VMul(2, t[1]), VMul(2, t[2]), VMul(2, t[3]), VMul(2, t[4]), y))

(* ---- cover and site ---- *)
Vecs == IF Deep THEN {<<2, 0, 0>>, <<0, 2, 0>>, <<0, 0, 2>>, <<2, 2, 0>>, <<0, -2, 4>>, <<-2, 2, 2>>, <<4, 2, 0>>}
        ELSE {<<2, 0, 0>>, <<0, 2, 0>>, <<0, -2, 4>>, <<-2, 2, 2>>, <<4, 2, 0>>}
Bases == {b \in Vecs \X Vecs \X Vecs : Dot(b[1], Cross(b[2], b[3])) # 0}
Motifs == { << [f |-> <<0, 0, 0>>, z |-> 6] >>, << [f |-> <<1, 1, 1>>, z |-> 6], [f |-> <<-3, 0, 4>>, z |-> 8] >> }
Boxes == { {<<0, 0, 0>>, <<5, 3, 4>>}, {<<-7, 2, 1>>, <<-3, 6, 5>>} }
Cells == { [k |-> "crystal", o |-> o, B |-> b, D |-> 2, sites |-> m] : o \in {<<0, 0, 0>>, <<1, -1, 3>>}, b \in Bases, m \in Motifs }
Lo(E) == << MinOf({e[1] : e \in E}), MinOf({e[2] : e \in E}), MinOf({e[3] : e \in E}) >>
Hi(E) == << MaxOf({e[1] : e \in E}), MaxOf({e[2] : e \in E}), MaxOf({e[3] : e \in E}) >>
InBox(E, y) == \A i \in 1..3 : Lo(E)[i] <= y[i] /\ y[i] <= Hi(E)[i]
Corners(E) == {<<p, q, r>> : p \in {Lo(E)[1], Hi(E)[1]}, q \in {Lo(E)[2], Hi(E)[2]}, r \in {Lo(E)[3], Hi(E)[3]}}
(* y - o - shift = B n, solved by Cramer's rule *)
Cramer(g, m, y) ==
  LET v == VSub(VSub(y, g.o), SiteShift(g, m))
      D == Dot(g.B[1], Cross(g.B[2], g.B[3]))
  IN /\ Dot(v, Cross(g.B[2], g.B[3])) % Abs(D) = 0
     /\ Dot(g.B[1], Cross(v, g.B[3])) % Abs(D) = 0
     /\ Dot(g.B[1], Cross(g.B[2], v)) % Abs(D) = 0
Brute(g, E) ==
  UNION { {<<y[1], y[2], y[3], m.z>> : m \in {q \in RangeOf(g.sites) : Cramer(g, q, y)}} :
          y \in (Lo(E)[1]..Hi(E)[1]) \X (Lo(E)[2]..Hi(E)[2]) \X (Lo(E)[3]..Hi(E)[3]) }
CoverOk == SitesIn(c, Corners(x), LAMBDA y : InBox(x, y)) = Brute(c, x)
SiteOk == LET S == Brute(c, {<<0, 0, 0>>, <<5, 3, 4>>}) IN
          \A y \in (0..5) \X (0..3) \X (0..4) : \A z \in {6, 8} :
            IsSite(c, y, z) = (<<y[1], y[2], y[3], z>> \in S)

(* ---- motion ---- *)
Signs == {-1, 1}
Perm == {p \in [1..3 -> 1..3] : \A i, j \in 1..3 : i # j => p[i] # p[j]}
SignedPerms == { [i \in 1..3 |-> [j \in 1..3 |-> IF p[i] = j THEN s[i] ELSE 0]] : p \in Perm, s \in [1..3 -> Signs] }
Motions == { [N |-> m, d |-> 1, c |-> <<3, 0, -6>>, t |-> <<0, 6, 3>>] : m \in SignedPerms }
           \cup { [N |-> << <<1, -2, 2>>, <<2, -1, -2>>, <<2, 2, 1>> >>, d |-> 3, c |-> <<3, 0, -6>>, t |-> <<0, 6, 3>>],
                  [N |-> << <<2, 1, 2>>, <<-2, 2, 1>>, <<1, 2, -2>> >>, d |-> 3, c |-> <<0, 0, 0>>, t |-> <<0, 0, 0>>] }
Surfaces == { [t |-> "pl", n |-> n, p |-> p, t2 |-> t] : n \in {<<1, 0, 0>>, <<0, -1, 1>>, <<1, 2, 2>>}, p \in {<<0, 0, 0>>, <<3, -3, 6>>}, t \in {0, 7} }
            \cup { [t |-> "sp", c |-> p, r |-> r, t2 |-> t] : p \in {<<0, 0, 0>>, <<3, -3, 6>>}, r \in {6, 9}, t \in {0, 7} }
            \cup { [t |-> "cy", a |-> a, p |-> p, r |-> 6, len |-> 12, t2 |-> t] : a \in {<<0, 0, 1>>, <<1, 1, 0>>, <<1, 2, 2>>}, p \in {<<0, 0, 0>>, <<3, -3, 6>>}, t \in {0, 7} }
Trial == {<<3 * i, 3 * j, 3 * k>> : i \in -2..3, j \in -3..2, k \in -2..4}
MotionOk == /\ \A y \in Trial : InAlg(MapAlg(x, c), MapPoint(x, y)) = InAlg(c, y)
            /\ IsRigid(x)
HullMotionOk == LET P == << <<0, 0, 0>>, <<6, 0, 0>>, <<0, 6, 0>>, <<0, 0, 6>>, <<6, 6, 3>> >>
                    Q == [i \in DOMAIN P |-> MapPoint(x, P[i])]
                H == HullPlanes(P)  K == HullPlanes(Q)
                IN \A y \in Trial : InHull(K, MapPoint(x, y)) = InHull(H, y)

Init == CASE Part = "hull" -> c \in {q \in Quads : Solid(q)} /\ x = 0
          [] Part = "cover" -> c \in Cells /\ x \in Boxes
          [] Part = "site" -> c \in Cells /\ x = 0
          [] Part = "motion" -> c \in Surfaces /\ x \in Motions
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Ok == CASE Part = "hull" -> HullOk
        [] Part = "cover" -> CoverOk
        [] Part = "site" -> SiteOk
        [] Part = "motion" -> MotionOk /\ ((c.t = "pl" /\ c.t2 = 0) => HullMotionOk)
=============================================================================
