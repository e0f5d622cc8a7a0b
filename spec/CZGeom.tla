------------------------------- MODULE CZGeom -------------------------------
(***************************************************************************)
(* Exact integer geometry for Construction Zone.                           *)
(*                                                                         *)
(* Every position is a vector of integers, in units of 1/U Angstrom (the   *)
(* harness uses U = 180, so thirds, fifths and ninths of half Angstroms    *)
(* are exact).  Regions, lattices and rigid motions with rational matrices *)
(* are decided with integer arithmetic only; TLC integers are 32 bits wide *)
(* (overflow is an error, never silent), so normals are kept reduced.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Vec(x, y, z) == <<x, y, z>>
Zero == <<0, 0, 0>>
VAdd(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
VSub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
VNeg(a) == <<0 - a[1], 0 - a[2], 0 - a[3]>>
VMul(k, a) == <<k * a[1], k * a[2], k * a[3]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == << a[2] * b[3] - a[3] * b[2],
                  a[3] * b[1] - a[1] * b[3],
                  a[1] * b[2] - a[2] * b[1] >>
Norm2(a) == Dot(a, a)
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Norm1(a) == Abs(a[1]) + Abs(a[2]) + Abs(a[3])
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN 0 - 1 ELSE 0
RangeOf(s) == {s[i] : i \in DOMAIN s}

RECURSIVE Gcd2(_, _)
Gcd2(a, b) == IF b = 0 THEN a ELSE Gcd2(b, a % b)
Gcd(a, b) == Gcd2(Abs(a), Abs(b))
GcdV(v) == Gcd(Gcd(v[1], v[2]), v[3])
(* shortest integer vector with the direction of v *)
Reduce(v) == LET g == GcdV(v) IN
             IF g <= 1 THEN v ELSE << (v[1] \div g), (v[2] \div g), (v[3] \div g) >>

(* exact division: the harness only asks for motions that stay on the grid *)
ExactDiv(a, d) == IF a % d = 0 THEN a \div d
                  ELSE Assert(FALSE, <<"off-grid division", a, d>>)
VDiv(v, d) == IF d = 1 THEN v
              ELSE <<ExactDiv(v[1], d), ExactDiv(v[2], d), ExactDiv(v[3], d)>>

(* matrices are sequences of rows *)
MatVec(m, v) == <<Dot(m[1], v), Dot(m[2], v), Dot(m[3], v)>>
Det3(m) == Dot(m[1], Cross(m[2], m[3]))
(* cofactor matrix: rows are cross products; (M^-1)^T = Cof(M)/det(M) *)
Cof(m) == <<Cross(m[2], m[3]), Cross(m[3], m[1]), Cross(m[1], m[2])>>
MatMul(a, b) ==
  [i \in 1..3 |-> [j \in 1..3 |-> a[i][1]*b[1][j] + a[i][2]*b[2][j] + a[i][3]*b[3][j]]]
Transpose(m) == [i \in 1..3 |-> [j \in 1..3 |-> m[j][i]]]
Ident == << <<1,0,0>>, <<0,1,0>>, <<0,0,1>> >>

(***************************************************************************)
(* Motions  x |-> N (x - c) / d + c + t                                    *)
(***************************************************************************)
MapPoint(T, x) == VAdd(VAdd(VDiv(MatVec(T.N, VSub(x, T.c)), T.d), T.c), T.t)
MapVector(T, b) == VDiv(MatVec(T.N, b), T.d)
(* direction of an axis, direction of a normal (contravariant) *)
MapAxis(T, a) == Reduce(MatVec(T.N, a))
MapNormal(T, n) == Reduce(VMul(Sign(Det3(T.N)), MatVec(Cof(T.N), n)))
IsRigid(T) == LET P == MatMul(T.N, Transpose(T.N)) IN
              \A i, j \in 1..3 : P[i][j] = (IF i = j THEN T.d * T.d ELSE 0)

(***************************************************************************)
(* Algebraic surfaces. Tolerance t2 is in half units, odd values for user- *)
(* chosen ones; 0 stands for the default of 10^-5 Angstrom = 9/5000 units, *)
(* with which (r + tol)^2 = r^2 + 36 r / 10^4 + a negligible rest.  For a  *)
(* plane it is below the resolution of the grid: its boundary is interior. *)
(*   [t |-> "pl", n, p, t2]  [t |-> "sp", c, r, t2]                        *)
(*   [t |-> "cy", a, p, r, len, t2]                                        *)
(***************************************************************************)
WithinSphere(d, r, t2) ==
  LET R == r + (t2 \div 2) + 1 IN
  /\ Abs(d[1]) <= R /\ Abs(d[2]) <= R /\ Abs(d[3]) <= R
  /\ IF t2 = 0 THEN Norm2(d) <= r * r + ((36 * r) \div 10000)
     ELSE (* 4|d|^2 < (2r+t2)^2 with both odd sides: |d|^2 <= floor *)
          LET q == 2 * r + t2 IN Norm2(d) <= (q * q) \div 4

InPlane(o, x) ==
  LET s == Dot(o.n, VSub(x, o.p)) IN
  \/ s <= 0
  \/ /\ o.t2 > 0
     /\ s <= o.t2 * Norm1(o.n)
     /\ 4 * s * s < o.t2 * o.t2 * Norm2(o.n)

InCyl(o, x) ==
  LET d == VSub(x, o.p)
      R == o.r + o.len + o.t2
      ad == Dot(o.a, d)
      ax == Cross(o.a, d)
      a2 == Norm2(o.a)
      qr == 2 * o.r + o.t2
      ql == o.len + o.t2
      (* |a| rounded up: rules far points out before their squares overflow *)
      m == CHOOSE k \in 0..Norm1(o.a) : k * k >= a2 /\ (k = 0 \/ (k - 1) * (k - 1) < a2)
      W == (o.r + o.t2 + 1) * m
  IN /\ Abs(d[1]) <= R /\ Abs(d[2]) <= R /\ Abs(d[3]) <= R
     /\ Abs(ax[1]) <= W /\ Abs(ax[2]) <= W /\ Abs(ax[3]) <= W
     /\ 2 * Abs(ad) <= (ql + 1) * m
     /\ IF o.t2 = 0
        THEN /\ Norm2(ax) <= o.r * o.r * a2 + ((36 * o.r * a2) \div 10000)
             /\ 4 * ad * ad <= o.len * o.len * a2 + ((72 * o.len * a2) \div 10000)
        ELSE /\ Norm2(ax) <= (qr * qr * a2 - 1) \div 4
             /\ 4 * ad * ad < ql * ql * a2

InAlg(o, x) ==
  CASE o.t = "pl" -> InPlane(o, x)
    [] o.t = "sp" -> WithinSphere(VSub(x, o.c), o.r, o.t2)
    [] o.t = "cy" -> InCyl(o, x)

MapAlg(T, o) ==
  CASE o.t = "pl" -> [o EXCEPT !.n = MapNormal(T, @), !.p = MapPoint(T, @)]
    [] o.t = "sp" -> [o EXCEPT !.c = MapPoint(T, @)]
    [] o.t = "cy" -> [o EXCEPT !.a = MapAxis(T, @), !.p = MapPoint(T, @)]

(***************************************************************************)
(* Convex hulls, as the set of supporting half spaces <<n, c>>: n.x <= c.  *)
(***************************************************************************)
FacetOf(S, a, b, c) ==
  LET n == Reduce(Cross(Reduce(VSub(b, a)), Reduce(VSub(c, a)))) IN
  IF n = Zero THEN {}
  ELSE IF \A p \in S : Dot(n, VSub(p, a)) <= 0 THEN {<<n, Dot(n, a)>>}
  ELSE IF \A p \in S : Dot(n, VSub(p, a)) >= 0 THEN {<<VNeg(n), 0 - Dot(n, a)>>}
  ELSE {}

HullPlanes(pts) ==
  LET S == RangeOf(pts) IN
     IF pts = <<>> THEN {}
     ELSE UNION { FacetOf(S, pts[t[1]], pts[t[2]], pts[t[3]]) :
                  t \in {u \in (DOMAIN pts) \X (DOMAIN pts) \X (DOMAIN pts) :
                         u[1] < u[2] /\ u[2] < u[3]} }

InHull(planes, x) == \A f \in planes : Dot(f[1], x) <= f[2]

(***************************************************************************)
(* Crystals: origin o, basis columns B = <<b1,b2,b3>>, sites = sequence of *)
(* [f |-> integer triple, z |-> atomic number], fractional coordinate f/D. *)
(***************************************************************************)
Lat(B, n) == VAdd(VAdd(VMul(n[1], B[1]), VMul(n[2], B[2])), VMul(n[3], B[3]))
SiteShift(g, s) == VDiv(Lat(g.B, s.f), g.D)
Recip(B, i) == LET r == Reduce(CASE i = 1 -> Cross(B[2], B[3])
                                 [] i = 2 -> Cross(B[3], B[1])
                                 [] i = 3 -> Cross(B[1], B[2]))
               IN IF Dot(r, B[i]) > 0 THEN r ELSE VNeg(r)
(* range of cell indices along axis i whose sites can reach the box spanned by enc *)
CellRange(g, enc, i) ==
  LET r == Recip(g.B, i)
      w == Dot(r, g.B[i])
      us == {Dot(r, VSub(e, g.o)) : e \in enc}
      fs == {s.f[i] : s \in RangeOf(g.sites)}
      lo == (MinOf(us) \div w) - (MaxOf(fs) \div g.D) - 1
      hi == (MaxOf(us) \div w) - (MinOf(fs) \div g.D) + 1
  IN lo..hi

(* the sites <<x,y,z,Z>> of crystal g which satisfy In, given that In implies
   membership in the box spanned by enc *)
SitesIn(g, enc, In(_)) ==
  IF enc = {} \/ g.k = "null" THEN {}
  ELSE LET o == g.o
           sh == [i \in DOMAIN g.sites |-> VAdd(o, SiteShift(g, g.sites[i]))]
           N == CellRange(g, enc, 1) \X CellRange(g, enc, 2) \X CellRange(g, enc, 3)
       IN UNION { LET L == Lat(g.B, n) IN
                  { <<p[1], p[2], p[3], p[4]>> :
                      p \in { q \in { LET x == VAdd(L, sh[i]) IN <<x[1], x[2], x[3], g.sites[i].z>>
                                       : i \in DOMAIN sh }
                              : In(<<q[1], q[2], q[3]>>) } }
                  : n \in N }

(* does position x carry a site of crystal g of species z ? *)
IsSite(g, x, z) ==
  /\ g.k = "crystal"
  /\ \E s \in RangeOf(g.sites) :
       /\ s.z = z
       /\ LET y == VSub(VSub(x, g.o), SiteShift(g, s)) IN
          \A i \in 1..3 : LET r == Recip(g.B, i) IN Dot(r, y) % Dot(r, g.B[i]) = 0

MapGen(T, g, flags) ==
  IF g.k = "crystal"
  THEN [g EXCEPT !.B = <<MapVector(T, @[1]), MapVector(T, @[2]), MapVector(T, @[3])>>,
                 !.o = IF flags.bo THEN @ ELSE MapPoint(T, @)]
  ELSE g
=============================================================================
