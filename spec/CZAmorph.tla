------------------------------ MODULE CZAmorph ------------------------------
(***************************************************************************)
(* Amorphous blocks (C12) and amorphous generators (C13).  Coordinates in  *)
(* 1/1000 Angstrom, rounded; a tolerance of 3 units covers the rounding.   *)
(* Densities in 1/1000 per cubic Angstrom, sides in 1/10 Angstrom.         *)
(***************************************************************************)
EXTENDS CZGeom

Tol == 3
Sqr(x) == x * x
Wrapped(d, L) == LET a == Abs(d) IN Min(a, Abs(L - a))
(* squared distance, wrapped in X and Y only *)
ADist2(p, q, L) == Sqr(Wrapped(p[1] - q[1], L[1])) + Sqr(Wrapped(p[2] - q[2], L[2])) + Sqr(p[3] - q[3])
Inside(p, L) == \A k \in 1..3 : p[k] >= 0 - Tol /\ p[k] <= L[k] + Tol

(* n is a nearest integer to vol6 / 10^6 *)
IsRound(n, vol6) == Abs(n * 1000000 - vol6) <= 500000
TooClose(A, L, m) ==
  \E i \in DOMAIN A : \E j \in DOMAIN A :
     i < j /\ ADist2(A[i], A[j], L) < Sqr(m - Tol)

BlockClauses(A, L10, dens, m) ==
  LET L == VMul(100, L10) IN
  (IF IsRound(Len(A), L10[1] * L10[2] * L10[3] * dens) THEN {} ELSE {"wrong-count"})
  \cup (IF \A i \in DOMAIN A : Inside(A[i], L) THEN {} ELSE {"outside-block"})
  \cup (IF TooClose(A, L, m) THEN {"too-close"} ELSE {})

AmorphClauses(e) ==
  IF e.exc # "" THEN {"unexpected-" \o e.exc}
  ELSE BlockClauses(e.res, e.dims, e.dens, e.m)
       \cup (IF e.again = e.res THEN {} ELSE {"seed-not-reproducible"})
       \cup (IF Len(e.res) = 0 \/ e.other # e.res THEN {} ELSE {"seed-ignored"})
       \cup (IF e.same THEN {} ELSE {"input-modified"})

------------------------------------------------------------------------------
(* An amorphous generator: st = [dens, m, z, reuse, has, block] where block is
   what was supplied last (sequence of positions).                           *)
AGNew(e) == [dens |-> e.dens, m |-> e.m, z |-> e.z, reuse |-> FALSE, has |-> FALSE, bz |-> e.z, block |-> <<>>]

MapSeq(T, A) == [i \in DOMAIN A |-> MapPoint(T, A[i])]
RECURSIVE MapAll(_, _)
MapAll(Ts, A) == IF Ts = <<>> THEN A ELSE MapAll(Tail(Ts), MapSeq(Head(Ts), A))
Near(p, q) == \A k \in 1..3 : Abs(p[k] - q[k]) <= Tol
SameBlock(A, B) == Len(A) = Len(B) /\ \A i \in DOMAIN A : Near(A[i], B[i])

BoxLo(P) == <<MinOf({P[i][1] : i \in DOMAIN P}), MinOf({P[i][2] : i \in DOMAIN P}), MinOf({P[i][3] : i \in DOMAIN P})>>
BoxHi(P) == <<MaxOf({P[i][1] : i \in DOMAIN P}), MaxOf({P[i][2] : i \in DOMAIN P}), MaxOf({P[i][3] : i \in DOMAIN P})>>

(* a fresh block spans the bounding box of P *)
FreshClauses(st, A, P) ==
  LET lo == BoxLo(P)
      L10 == LET d == VSub(BoxHi(P), lo) IN <<(d[1] \div 100), (d[2] \div 100), (d[3] \div 100)>>
  IN BlockClauses([i \in DOMAIN A |-> VSub(A[i], lo)], L10, st.dens, st.m)

(* a reused block keeps its species *)
AGSpecies(st) == IF st.reuse /\ st.has THEN st.bz ELSE st.z

(* supplied directly *)
AGSupply(st, e) ==
  (IF st.reuse /\ st.has
   THEN (IF SameBlock(e.res, st.block) THEN {} ELSE {"reused-block-changed"})
   ELSE FreshClauses(st, e.res, e.pts))
  \cup (IF \A i \in DOMAIN e.zs : e.zs[i] = AGSpecies(st) THEN {} ELSE {"wrong-species"})
  \cup (IF Len(e.zs) = Len(e.res) THEN {} ELSE {"species-length"})

(* regions with a margin: m > 0 clearly inside only, m < 0 also just outside *)
MIn(r, x, m) ==
  /\ \A i \in DOMAIN r.planes : Dot(r.planes[i][1], x) <= r.planes[i][2] - m * Norm1(r.planes[i][1])
  /\ \A i \in DOMAIN r.spheres : LET s == r.spheres[i] d == VSub(x, s[1]) R == s[2] - m IN
        /\ \A k \in 1..3 : Abs(d[k]) <= R
        /\ Norm2(d) <= R * R

(* populated through a volume: block is the generator's latest block *)
AGPopulate(st, e) ==
  LET A == RangeOf(e.res) B == e.block IN
  (IF st.reuse /\ st.has
   THEN (IF SameBlock(B, st.block) THEN {} ELSE {"reused-block-changed"})
   ELSE FreshClauses(st, B, e.pts))
  \cup (IF \A i \in DOMAIN B : MIn(e.region, B[i], Tol) => B[i] \in A THEN {} ELSE {"region-not-filled"})
  \cup (IF \A a \in A : MIn(e.region, a, 0 - Tol) THEN {} ELSE {"atom-outside-region"})
  \cup (IF A \subseteq RangeOf(B) /\ Cardinality(A) = Len(e.res) THEN {} ELSE {"not-from-the-block"})
  \cup (IF (\A i \in DOMAIN e.zs : e.zs[i] = AGSpecies(st)) /\ Len(e.zs) = Len(e.res) THEN {} ELSE {"wrong-species"})

AGStep(st, e) ==
  CASE e.fn = "ag_new" -> AGNew(e)
    [] e.fn = "ag_set" -> [st EXCEPT !.dens = e.dens, !.m = e.m, !.z = e.z]
    [] e.fn = "ag_reuse" -> [st EXCEPT !.reuse = e.on]
    [] e.fn = "ag_supply" -> [st EXCEPT !.has = TRUE, !.bz = AGSpecies(st), !.block = e.res]
    [] e.fn = "ag_populate" -> [st EXCEPT !.has = TRUE, !.bz = AGSpecies(st), !.block = e.block]
    [] e.fn = "ag_tf" -> [st EXCEPT !.block = IF e.moves THEN MapAll(e.T, @) ELSE @]
AGClauses(st, e) ==
  IF e.exc # "" THEN {"unexpected-" \o e.exc}
  ELSE CASE e.fn = "ag_supply" -> AGSupply(st, e)
         [] e.fn = "ag_populate" -> AGPopulate(st, e)
         [] OTHER -> {}
=============================================================================
