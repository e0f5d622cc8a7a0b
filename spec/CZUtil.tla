------------------------------- MODULE CZUtil -------------------------------
(***************************************************************************)
(* Pure functions of czone.util: voxel adjacency (C14), radial distribution*)
(* and periodic distances (C15), random splits (C16).                      *)
(***************************************************************************)
EXTENDS CZGeom

------------------------------------------------------------------------------
(* Voxel grids: voxels are numbered x first, then y, then z *)
VoxCoord(dim, i) == << i % dim[1], (i \div dim[1]) % dim[2], i \div (dim[1] * dim[2]) >>
VoxIndex(dim, c) == c[1] + dim[1] * (c[2] + dim[2] * c[3])
AxisNear(n, per, a) == { b \in {a - 1, a, a + 1} : per \/ (b >= 0 /\ b < n) }
Wrap(n, b) == b % n
VoxNeighbours(dim, per, i) ==
  LET c == VoxCoord(dim, i) IN
  { VoxIndex(dim, <<Wrap(dim[1], x), Wrap(dim[2], y), Wrap(dim[3], z)>>) :
      x \in AxisNear(dim[1], per[1], c[1]),
      y \in AxisNear(dim[2], per[2], c[2]),
      z \in AxisNear(dim[3], per[3], c[3]) }

VoxClauses(e) ==
  LET n == e.dim[1] * e.dim[2] * e.dim[3] IN
  IF Len(e.res) # n THEN {"wrong-number-of-voxels"}
  ELSE (IF \E i \in 1..n : RangeOf(e.res[i]) \ VoxNeighbours(e.dim, e.per, i - 1) # {}
        THEN {"not-a-neighbour"} ELSE {})
       \cup (IF \E i \in 1..n : VoxNeighbours(e.dim, e.per, i - 1) \ RangeOf(e.res[i]) # {}
             THEN {"missing-neighbour"} ELSE {})
       \cup (IF (e.per[1] /\ e.per[2] /\ e.per[3]) /\ \E i \in 1..n : Len(e.res[i]) # 27
             THEN {"not-27-entries"} ELSE {})

------------------------------------------------------------------------------
(* Distances: coordinates in units of 1/20 Angstrom, so the edge of bin k,   *)
(* k/10 Angstrom, is 2k units.  A distance exactly on an edge may fall on     *)
(* either side.                                                               *)
Sq(x) == x * x
AxisDist(d, L, per) == LET a == Abs(d) IN IF per THEN Min(a, L - a) ELSE a
PDist2(p, q, L, per) == Sq(AxisDist(p[1] - q[1], L[1], per[1]))
                        + Sq(AxisDist(p[2] - q[2], L[2], per[2]))
                        + Sq(AxisDist(p[3] - q[3], L[3], per[3]))
Extent(P, k) == MaxOf({P[i][k] : i \in DOMAIN P}) - MinOf({P[i][k] : i \in DOMAIN P})

RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k - 1)

RdfClauses(e) ==
  LET P == e.pts
      L == <<Extent(P, 1), Extent(P, 2), Extent(P, 3)>>
      Prs == {<<i, j>> \in (DOMAIN P) \X (DOMAIN P) : i < j}
      D == [pr \in Prs |-> PDist2(P[pr[1]], P[pr[2]], L, e.per)]
      Lt(k) == 2 * Cardinality({pr \in Prs : D[pr] < 4 * k * k})
      Le(k) == 2 * Cardinality({pr \in Prs : D[pr] <= 4 * k * k})
  IN IF Len(e.res) # e.bins THEN {"wrong-number-of-bins"}
     ELSE (IF \E k \in 1..e.bins : SumTo(e.res, k) < Lt(k) THEN {"pair-not-counted"} ELSE {})
          \cup (IF \E k \in 1..e.bins : SumTo(e.res, k) > Le(k) THEN {"pair-counted-too-often"} ELSE {})
          \cup (IF e.same THEN {} ELSE {"points-modified"})
          \cup (IF e.frac = 0 THEN {} ELSE {"fractional-count"})

SdistClauses(e) ==
  IF \E i \in DOMAIN e.A, j \in DOMAIN e.B :
       e.res[i][j] # PDist2(e.A[i], e.B[j], e.dims, e.per)
  THEN {"wrong-distance"} ELSE {}

------------------------------------------------------------------------------
(* Splits *)
Feasible(n, m, l) == n = 0 \/ l - 2 * m > (n - 1) * m
IsSplit(n, m, l, s) ==
  /\ Len(s) = n
  /\ \A i \in 1..n : s[i] >= m /\ s[i] < l - m
  /\ \A i \in 1..(n - 1) : s[i + 1] - s[i] >= m

RECURSIVE AllSplits(_, _, _, _)
(* all sorted sequences of n integers in lo..hi, at least m apart *)
AllSplits(n, m, lo, hi) ==
  IF n = 0 THEN {<<>>}
  ELSE UNION { {<<x>> \o s : s \in AllSplits(n - 1, m, x + m, hi)} : x \in lo..hi }

SplitClauses(e) ==
  IF ~ Feasible(e.n, e.m, e.l)
  THEN (IF e.exc = "" THEN {"infeasible-request-answered"}
        ELSE IF e.exc = "TimeoutError" THEN {"never-terminates"} ELSE {})
  ELSE IF e.exc # "" THEN {IF e.exc = "TimeoutError" THEN "never-terminates" ELSE "feasible-request-rejected"}
  ELSE (IF IsSplit(e.n, e.m, e.l, e.res) THEN {} ELSE {"not-a-split"})
       \cup (IF e.seeded /\ e.again # e.res THEN {"seed-not-reproducible"} ELSE {})

SplitSetClauses(e) ==
  LET all == AllSplits(e.n, e.m, e.m, e.l - e.m - 1) S == RangeOf(e.res) IN
  IF e.exc # "" THEN {"feasible-request-rejected"}
  ELSE (IF S \ all # {} THEN {"not-a-split"} ELSE {})
       \cup (IF all \ S # {} THEN {"split-never-chosen"} ELSE {})
=============================================================================
