------------------------------ MODULE CZStack ------------------------------
(***************************************************************************)
(* Planar defects of close packed crystals (C18: fcc, C19: wurtzite).      *)
(*                                                                         *)
(* Built objects are seen in the coordinates of the given crystal, so that *)
(* its origin, orientation and size play no part.                          *)
(*                                                                         *)
(* fcc: the cubic cell has 72 units, n = (sx, sy, sz) is the chosen {111}   *)
(* direction, n.y = 72 k on close packed layer k, whose sites are at one of *)
(* three positions s in 0..2 (the given crystal has s = k mod 3):           *)
(*    y = 24 k n + 12 s (sx, sy, -2 sz) + 36 u (sx, -sy, 0) + 36 v (0, sy, -sz) *)
(* Neighbouring layers fit when their positions differ.  A stacking fault   *)
(* on plane p is a single step of the sequence taken the other way; a twin  *)
(* turns all steps below p around.                                          *)
(*                                                                         *)
(* wurtzite: lateral unit 1/12 of the cell, 1/200 along c.  Layer k has its *)
(* cations at z = 100 k, and the anions bound to them on top at 100 k + uu, *)
(* all at lateral position (4 s, -4 s).                                     *)
(***************************************************************************)
EXTENDS CZGeom

(* the volume: half spaces w.y <= c and spheres 2 |y - c|^2 <= q *)
InHs(H, y) == \A i \in DOMAIN H : Dot(H[i].w, y) <= H[i].c
InBall(S, y) == \A i \in DOMAIN S : 2 * Norm2(VSub(y, S[i].c)) <= S[i].q

(* exact vertices of a set of half spaces, as <<numerators, denominator>> *)
HsTriples(H) == {t \in (DOMAIN H) \X (DOMAIN H) \X (DOMAIN H) :
                   t[1] < t[2] /\ t[2] < t[3] /\ Dot(H[t[1]].w, Cross(H[t[2]].w, H[t[3]].w)) # 0}
HsVertex(H, t) ==
  LET a == H[t[1]] b == H[t[2]] c == H[t[3]]
      D == Dot(a.w, Cross(b.w, c.w))
      X == VAdd(VAdd(VMul(a.c, Cross(b.w, c.w)), VMul(b.c, Cross(c.w, a.w))), VMul(c.c, Cross(a.w, b.w)))
  IN IF D > 0 THEN <<X, D>> ELSE <<VNeg(X), 0 - D>>
HsVertices(H) == {v \in {HsVertex(H, t) : t \in HsTriples(H)} : \A i \in DOMAIN H : Dot(H[i].w, v[1]) <= H[i].c * v[2]}
FloorDiv(a, b) == a \div b
CeilDiv(a, b) == 0 - ((0 - a) \div b)

RECURSIVE ISqrtB(_, _, _)
ISqrtB(x, lo, hi) == IF hi - lo <= 1 THEN lo
                     ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN ISqrtB(x, m, hi) ELSE ISqrtB(x, lo, m)
Root(x) == ISqrtB(x, 0, 46340)

(* number of planes in lo..hi that can be taken at least m apart *)
Fit(lo, hi, m) == IF hi < lo THEN 0 ELSE (hi - lo) \div Max(m, 1) + 1

(***************************************************************************)
(* Which numbers and kinds of defects explain the stacking?  s is the        *)
(* sequence of positions of layers a..b.  States of the scan: distance to    *)
(* the last defect plane (at most m), whether the last plane has a stacking  *)
(* fault, number of defects, whether there were twins, faults.               *)
(***************************************************************************)
StepUp(s, k) == (s[k + 1] - s[k]) % 3                       (* 1 or 2 *)
Turn(s, k) == StepUp(s, k) # StepUp(s, k - 1)               (* layer k is hexagonal *)

RECURSIVE Scan(_, _, _, _, _, _)
Scan(s, a, b, k, S, e) ==
  IF k > b - 1 THEN S
  ELSE LET nd(x) == Min(x.d + 1, e.m)
           ok(x, turn) == k = a \/ Turn(s, k) = turn
           none == {[x EXCEPT !.d = nd(x), !.f = FALSE] : x \in {y \in S : ok(y, y.f)}}
           sf == IF e.sf THEN {[x EXCEPT !.d = 1, !.f = TRUE, !.c = x.c + 1, !.g = TRUE] :
                                 x \in {y \in S : y.d >= e.m /\ ok(y, ~y.f)}} ELSE {}
           tw == IF e.tw /\ k > a THEN {[x EXCEPT !.d = 1, !.f = FALSE, !.c = x.c + 1, !.t = TRUE] :
                                 x \in {y \in S : y.d >= e.m /\ ok(y, ~y.f)}} ELSE {}
           all == none \cup sf \cup tw
       IN Scan(s, a, b, k + 1, {x \in all : x.c <= e.N}, e)

Explanations(s, a, b, e) ==
  Scan(s, a, b, a, {[d |-> e.m, f |-> FALSE, c |-> 0, t |-> FALSE, g |-> FALSE]}, e)

(***************************************************************************)
(* fcc                                                                      *)
(***************************************************************************)
FccSite(n, k, s, u, v) ==
  << 24 * k * n[1] + 12 * s * n[1] + 36 * u * n[1],
     24 * k * n[2] + 12 * s * n[2] + 36 * (v - u) * n[2],
     24 * k * n[3] - 24 * s * n[3] - 36 * v * n[3] >>
FccLayer(n, y) == Dot(n, y) \div 72
FccClasses(n, y) ==
  LET k == FccLayer(n, y)
      r == VSub(y, VMul(24 * k, n))
  IN {s \in 0..2 : \A i \in 1..3 : (r[i] * n[i] - 12 * s) % 36 = 0}

FccClauses(e) ==
  LET n == e.n
      P == RangeOf(e.pos)
      In(y) == InHs(e.H, y) /\ InBall(e.S, y)
      onlayer == \A y \in P : Dot(n, y) % 72 = 0
      onsite == onlayer /\ \A y \in P : FccClasses(n, y) # {}
      ks == {FccLayer(n, y) : y \in P}
      verts == HsVertices(e.E)
      (* extents of the volume along n, in layers *)
      lows == {FloorDiv(Dot(n, v[1]), 72 * v[2]) : v \in verts}
      highs == {CeilDiv(Dot(n, v[1]), 72 * v[2]) : v \in verts}
      sr(q) == Root(3 * (q \div 2)) + 2
      slo == {FloorDiv(Dot(n, e.S[i].c) - sr(e.S[i].q), 72) : i \in DOMAIN e.S}
      shi == {CeilDiv(Dot(n, e.S[i].c) + sr(e.S[i].q), 72) : i \in DOMAIN e.S}
      klo == MinOf(lows \cup slo)
      khi == MaxOf(highs \cup shi)
      (* coordinate ranges of the volume *)
      B(i) == LET xs == {FloorDiv(v[1][i], v[2]) : v \in verts}
                  ss == {e.S[j].c[i] - Root(e.S[j].q \div 2) - 1 : j \in DOMAIN e.S}
              IN MinOf(xs \cup ss)
      T(i) == LET xs == {CeilDiv(v[1][i], v[2]) : v \in verts}
                  ss == {e.S[j].c[i] + Root(e.S[j].q \div 2) + 1 : j \in DOMAIN e.S}
              IN MaxOf(xs \cup ss)
      b1 == B(1) t1 == T(1) b3 == B(3) t3 == T(3)
      Range(lo, hi, base, sgn) ==        (* values u with lo <= base + 36 sgn u <= hi *)
        IF sgn > 0 THEN CeilDiv(lo - base, 36)..FloorDiv(hi - base, 36)
        ELSE CeilDiv(base - hi, 36)..FloorDiv(base - lo, 36)
      Sites(k, s) ==
        LET z == FccSite(n, k, s, 0, 0) IN
        {y \in {FccSite(n, k, s, u, v) : u \in Range(b1, t1, z[1], n[1]), v \in Range(b3, t3, z[3], 0 - n[3])} : In(y)}
      cls == [k \in ks |-> UNION {FccClasses(n, y) : y \in {x \in P : FccLayer(n, x) = k}}]
      single == \A k \in ks : Cardinality(cls[k]) = 1
      a == MinOf(ks)  b == MaxOf(ks)
      s == [k \in ks |-> CHOOSE c \in cls[k] : TRUE]
      gaps == (klo..khi) \ ks
      cap == Fit(klo + e.m, a, e.m) + Fit(b, khi + 1 - e.m, e.m)
      X == Explanations(s, a, b, e)
  IN IF e.off > 0 THEN {"distorted-crystal"}
     ELSE IF P = {} THEN {"no-atoms"}
     ELSE IF ~onsite THEN {"not-close-packed-sites"}
     ELSE IF ~single THEN {"atoms-at-different-positions-of-one-layer"}
     ELSE (IF \A y \in P : In(y) THEN {} ELSE {"outside-the-volume"})
       \cup (IF Len(e.pos) = Cardinality(P) THEN {} ELSE {"duplicated-atom"})
       \cup (IF e.oksp THEN {} ELSE {"wrong-species"})
       \cup (IF e.same THEN {} ELSE {"inputs-changed"})
       \cup (IF \A k \in ks : Sites(k, s[k]) \subseteq P THEN {} ELSE {"vacant-site"})
       \cup (IF \A k \in gaps : \E c \in 0..2 : Sites(k, c) = {} THEN {} ELSE {"vacant-layer"})
       \cup (IF \A k \in ks : (k + 1) \notin ks \/ s[k] # s[k + 1] THEN {} ELSE {"layers-on-top-of-each-other"})
       \cup (IF (\E k \in a..b : k \notin ks) \/ (\E k \in a..(b - 1) : s[k] = s[k + 1]) THEN {}
             ELSE (IF \E x \in X : e.N - x.c <= cap THEN
                     (IF \E x \in X : /\ e.N - x.c <= cap /\ (x.t => e.rtw) /\ (x.g => e.rsf)
                                      /\ (x.c = e.N => (x.t = e.rtw /\ x.g = e.rsf))
                      THEN {} ELSE {"reported-kinds-of-defects"})
                   ELSE IF X = {} /\ Explanations(s, a, b, [e EXCEPT !.m = 1, !.N = 99]) # {} THEN {"too-many-or-too-close-defects"}
                   ELSE IF X = {} THEN {"wrong-kind-of-defects"}
                   ELSE {"missing-defects"}))

(* share of objects with stacking faults (twins) among many, within 6 standard deviations; every one of N defects is chosen on its own *)
RECURSIVE PowMil(_, _)
PowMil(q, n) == IF n = 0 THEN 1000 ELSE (PowMil(q, n - 1) * q) \div 100                    (* (q/100)^n in 1/1000 *)
Frequent(count, total, p) ==
  Abs(1000 * count - p * total) <= 6 * Root(total * p * (1000 - p)) + 8 * total
RatioClauses(e) ==
  IF /\ Frequent(e.sf, e.total, 1000 - PowMil(100 - e.ratio, e.N))
     /\ Frequent(e.tw, e.total, 1000 - PowMil(e.ratio, e.N))
  THEN {} ELSE {"ratio-of-defects"}

(***************************************************************************)
(* wurtzite                                                                 *)
(***************************************************************************)
WzForm(d) == 5000 * (d[1] * d[1] + d[2] * d[2] - d[1] * d[2]) + 48 * d[3] * d[3]
WzIn(e, y, slack) == InHs(e.H, y) /\ \A i \in DOMAIN e.S : WzForm(VSub(y, e.S[i].c)) <= e.S[i].q + slack
(* atoms are <<x, y, z, species>>: 0 is the cation, 1 the anion *)
WzLayer(e, p) == (p[3] - p[4] * e.uu) \div 100
WzClasses(p) == {s \in 0..2 : (p[1] - 4 * s) % 12 = 0 /\ (p[2] + 4 * s) % 12 = 0}
XYZ(p) == <<p[1], p[2], p[3]>>

WzClauses(e) ==
  LET P == RangeOf(e.pos)
      onsite == \A p \in P : (p[3] - p[4] * e.uu) % 100 = 0 /\ WzClasses(p) # {}
      ks == {WzLayer(e, p) : p \in P}
      verts == HsVertices(e.E)
      fr(q) == Root(q \div 48) + 1                         (* half height of a sphere *)
      lr(q) == Root((4 * (q \div 3)) \div 5000) + 1        (* half width *)
      Lo(i, r(_)) == MinOf({FloorDiv(v[1][i], v[2]) : v \in verts} \cup {e.S[j].c[i] - r(e.S[j].q) : j \in DOMAIN e.S})
      Hi(i, r(_)) == MaxOf({CeilDiv(v[1][i], v[2]) : v \in verts} \cup {e.S[j].c[i] + r(e.S[j].q) : j \in DOMAIN e.S})
      klo == FloorDiv(Lo(3, fr), 100) - 1
      khi == CeilDiv(Hi(3, fr), 100) + 1
      x0 == Lo(1, lr) \div 12 - 1  x1 == Hi(1, lr) \div 12 + 1
      y0 == Lo(2, lr) \div 12 - 1  y1 == Hi(2, lr) \div 12 + 1
      Sites(k, s) == {<<4 * s + 12 * i, 12 * j - 4 * s, 100 * k + t * e.uu, t>> : i \in x0..x1, j \in y0..y1, t \in 0..1}
      Must(k, s) == {p \in Sites(k, s) : WzIn(e, XYZ(p), 0 - 40)}
      cls == [k \in ks |-> UNION {WzClasses(p) : p \in {q \in P : WzLayer(e, q) = k}}]
      single == \A k \in ks : Cardinality(cls[k]) = 1
      a == MinOf(ks)  b == MaxOf(ks)
      s == [k \in ks |-> CHOOSE c \in cls[k] : TRUE]
      whole == \A k \in a..b : k \in ks
      cubic == {k \in (a + 1)..(b - 1) : s[k - 1] # s[k + 1]}
      cap == Fit(klo - 1 + e.m, a + 1, e.m) + Fit(b - 1, khi + 2 - e.m, e.m)
  IN IF e.off > 0 THEN {"distorted-crystal"}
     ELSE IF P = {} THEN {"no-atoms"}
     ELSE IF ~onsite THEN {"not-sites-of-the-stacking"}
     ELSE IF ~single THEN {"broken-bonds-along-c"}
     ELSE (IF \A p \in P : WzIn(e, XYZ(p), 40) THEN {} ELSE {"outside-the-volume"})
       \cup (IF Len(e.pos) = Cardinality(P) THEN {} ELSE {"duplicated-atom"})
       \cup (IF e.oksp THEN {} ELSE {"wrong-species"})
       \cup (IF e.same THEN {} ELSE {"inputs-changed"})
       \cup (IF e.rsf = (e.N > 0) THEN {} ELSE {"reported-kinds-of-defects"})
       \cup (IF \A k \in ks : Must(k, s[k]) \subseteq P THEN {} ELSE {"vacant-site"})
       \cup (IF \A k \in (klo..khi) \ ks : \E c \in 0..2 : Must(k, c) = {} THEN {} ELSE {"vacant-layer"})
       \cup (IF \A k \in ks : (k + 1) \notin ks \/ s[k] # s[k + 1] THEN {} ELSE {"broken-bonds-between-layers"})
       \cup (IF ~whole THEN {}
             ELSE (IF \A i, j \in cubic : i = j \/ Abs(i - j) >= Max(1, e.m - 1) THEN {} ELSE {"faults-not-of-type-I1-or-too-close"})
               \cup (IF Cardinality(cubic) <= e.N THEN {} ELSE {"too-many-faults"})
               \cup (IF e.N - Cardinality(cubic) <= cap THEN {} ELSE {"missing-faults"}))

StackFns == {"fcc", "sfratio", "wz"}
StackClauses(e) ==
  IF e.exc # "" THEN {"unexpected-" \o e.exc}
  ELSE CASE e.fn = "fcc" -> FccClauses(e)
         [] e.fn = "sfratio" -> RatioClauses(e)
         [] e.fn = "wz" -> WzClauses(e)
=============================================================================
