------------------------------- MODULE MCUtil -------------------------------
(***************************************************************************)
(* Algorithms of czone.util against what they are meant to compute.        *)
(*   "voxels"  neighbour lists by index arithmetic with corrections at the *)
(*             faces, for every grid and periodicity (C14)                  *)
(*   "pairs"   pairs of points within a cutoff lie in adjacent voxels, and *)
(*             each pair is met exactly once from either end (C15)          *)
(*   "splits"  drawing planes one at a time, starting over when none is    *)
(*             left: only legal sets come out, and every legal set can (C16)*)
(***************************************************************************)
EXTENDS CZUtil
CONSTANTS Part, Size
VARIABLES a, b, s, avail
vars == <<a, b, s, avail>>

Pers == BOOLEAN \X BOOLEAN \X BOOLEAN
Offs == [i \in 0..26 |-> << (i % 3) - 1, ((i \div 3) % 3) - 1, (i \div 9) - 1 >>]
(* the index arithmetic of the library *)
Arith(d, i, t) ==
  LET N == d[1] * d[2] * d[3]
      x == i % d[1]   y == (i \div d[1]) % d[2]
      raw == i + t[1] + t[2] * d[1] + t[3] * d[1] * d[2]
      fx == IF t[1] = -1 /\ x = 0 THEN d[1] ELSE IF t[1] = 1 /\ x = d[1] - 1 THEN 0 - d[1] ELSE 0
      fy == IF t[2] = -1 /\ y = 0 THEN d[1] * d[2] ELSE IF t[2] = 1 /\ y = d[2] - 1 THEN 0 - d[1] * d[2] ELSE 0
  IN (raw + fx + fy) % N
Masked(d, per, i, t) ==
  LET c == VoxCoord(d, i) IN
  \E k \in 1..3 : ~ per[k] /\ ((t[k] = -1 /\ c[k] = 0) \/ (t[k] = 1 /\ c[k] = d[k] - 1))
VoxOk == \A i \in 0..(a[1] * a[2] * a[3] - 1) :
   LET got == {Arith(a, i, Offs[q]) : q \in {r \in 0..26 : ~ Masked(a, b, i, Offs[r])}} IN
   /\ got = VoxNeighbours(a, b, i)
   /\ i \in got
   /\ \A j \in got : i \in VoxNeighbours(a, b, j)

(* pairs: a = <<extent x, extent z, cutoff>> , b = periodicity of x and z.   *)
(* Points sit on both ends of the extent, the upper end belonging to the last *)
(* voxel; a distance of exactly the cutoff is on a bin edge and left open     *)
(* (the upper end and a point one cutoff above the lower end are that far     *)
(* apart across a periodic boundary, two voxels away).                        *)
Blocks(Len0, cut) == Max(Len0 \div cut, 1)
BlockOf(p, Len0, n) == Min((p * n) \div Len0, n - 1)
Pts == (0..a[1]) \X (0..a[2])
Near2(p, q) == Sq(AxisDist(p[1] - q[1], a[1], b[1])) + Sq(AxisDist(p[2] - q[2], a[2], b[2]))
PairsOk ==
  LET nx == Blocks(a[1], a[3])  nz == Blocks(a[2], a[3])
      blk(p) == <<BlockOf(p[1], a[1], nx), BlockOf(p[2], a[2], nz)>>
      adj(p, q) == /\ \E x \in AxisNear(nx, b[1], blk(p)[1]) : Wrap(nx, x) = blk(q)[1]
                   /\ \E z \in AxisNear(nz, b[2], blk(p)[2]) : Wrap(nz, z) = blk(q)[2]
  IN \A p, q \in Pts : Near2(p, q) < a[3] * a[3] => adj(p, q) /\ adj(q, p)

(* splits: a = <<number, least distance, length>> , b = a legal set *)
SplitRange == a[2]..(a[3] - a[2] - 1)
Free(S) == {v \in SplitRange : \A w \in S : Abs(v - w) >= a[2]}

Init == CASE Part = "voxels" -> a \in (1..Size) \X (1..Size) \X (1..Size) /\ b \in Pers /\ s = {} /\ avail = {}
          [] Part = "pairs" -> a \in (2..Size) \X (2..Size) \X (1..Size) /\ b \in BOOLEAN \X BOOLEAN /\ s = {} /\ avail = {}
          [] Part = "splits" ->
               /\ a \in {t \in (1..4) \X (1..3) \X (3..Size) : Feasible(t[1], t[2], t[3])}
               /\ b \in {RangeOf(q) : q \in AllSplits(a[1], a[2], a[2], a[3] - a[2] - 1)}
               /\ s \in {{v} : v \in SplitRange}
               /\ avail = Free(s)
Draw == /\ Part = "splits" /\ Cardinality(s) < a[1]
        /\ IF avail = {} THEN \E v \in SplitRange : s' = {v} /\ avail' = Free({v})
           ELSE \E v \in avail : s' = s \cup {v} /\ avail' = {w \in avail : Abs(w - v) >= a[2]}
        /\ UNCHANGED <<a, b>>
Next == Draw \/ (Part # "splits" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

RECURSIVE Up(_)
Up(S) == IF S = {} THEN <<>> ELSE LET v == MinOf(S) IN <<v>> \o Up(S \ {v})
Ok == CASE Part = "voxels" -> VoxOk
        [] Part = "pairs" -> PairsOk
        [] Part = "splits" ->
             /\ avail = Free(s)
             /\ Cardinality(s) = a[1] => IsSplit(a[1], a[2], a[3], Up(s))
             (* the set b is always within reach: a draw that is part of it can be completed *)
             /\ (s \subseteq b /\ s # b) => (b \ s) \subseteq avail
=============================================================================
