------------------------------ MODULE MCAmorph ------------------------------
(***************************************************************************)
(* Random sequential addition of points at least m apart (C12), as the     *)
(* library does it, one point at a time and in batches, on a two-          *)
(* dimensional grid: the first coordinate periodic, the second open.       *)
(* A point is compared with the points of its own and adjacent blocks      *)
(* only; a batch keeps one point per block, and of two accepted points of  *)
(* adjacent blocks the later.                                              *)
(***************************************************************************)
EXTENDS CZGeom
CONSTANTS Mode, MaxX, MaxZ, MaxM, MaxN, Batch
VARIABLES L, m, sc, N, vox, pts
vars == <<L, m, sc, N, vox, pts>>

Sqr(x) == x * x
Points == (0..(L[1] - 1)) \X (0..(L[2] - 1))
Dx(d) == LET a == Abs(d) IN Min(a, L[1] - a)
D2(p, q) == Sqr(Dx(p[1] - q[1])) + Sqr(p[2] - q[2])

NB(k) == Max(L[k] \div (m * sc), 1)
Block(p) == << (p[1] * NB(1)) \div L[1], (p[2] * NB(2)) \div L[2] >>
Blocks == (0..(NB(1) - 1)) \X (0..(NB(2) - 1))
Nbr(b) == { <<x % NB(1), z>> : x \in {b[1] - 1 + NB(1), b[1], b[1] + 1},
                               z \in {w \in {b[2] - 1, b[2], b[2] + 1} : w >= 0 /\ w < NB(2)} }
Local(p) == UNION {vox[b] : b \in Nbr(Block(p))}

Ord(b) == b[1] + NB(1) * b[2]
Clear(p) == IF Mode = "single" THEN \A q \in Local(p) : D2(p, q) >= m * m
            ELSE \A q \in Local(p) : D2(p, q) > m * m

Init == /\ L \in (1..MaxX) \X (1..MaxZ) /\ m \in 1..MaxM /\ N \in 1..MaxN
        /\ sc \in (IF Mode = "single" THEN {1} ELSE {1, 2})
        /\ vox = [b \in Blocks |-> {}] /\ pts = {}

AddOne == /\ Mode = "single" /\ Cardinality(pts) < N
          /\ \E p \in Points : Clear(p) /\ vox' = [vox EXCEPT ![Block(p)] = @ \cup {p}] /\ pts' = pts \cup {p}
          /\ UNCHANGED <<L, m, sc, N>>

(* what is kept of a batch of candidates, at most one per block *)
Kept(C) == LET ok == {p \in C : Clear(p)} IN
           {p \in ok : ~ \E q \in ok : Ord(Block(q)) > Ord(Block(p)) /\ Block(p) \in Nbr(Block(q))}
Batches == UNION { {{p}} : p \in Points } \cup
           IF Batch < 2 THEN {} ELSE
           { {p, q} : p, q \in Points } \cup
           IF Batch < 3 THEN {} ELSE { {p, q, r} : p, q, r \in Points }
OnePer(C) == \A p, q \in C : p # q => Block(p) # Block(q)
AddMany == /\ Mode = "batch" /\ Cardinality(pts) < N
           /\ \E C \in Batches : OnePer(C) /\
                LET K == Kept(C) IN
                /\ vox' = [b \in Blocks |-> vox[b] \cup {p \in K : Block(p) = b}]
                (* the surplus, in block order, is cut off *)
                /\ LET room == N - Cardinality(pts) IN
                   pts' = pts \cup {p \in K : Cardinality({q \in K : Ord(Block(q)) <= Ord(Block(p))}) <= room}
           /\ UNCHANGED <<L, m, sc, N>>
Next == AddOne \/ AddMany
Spec == Init /\ [][Next]_vars

Apart == \A p, q \in pts : p # q => D2(p, q) >= m * m
AtMost == Cardinality(pts) <= N
InBlocks == \A b \in Blocks : \A p \in vox[b] : Block(p) = b
Held == pts \subseteq UNION {vox[b] : b \in Blocks}
(* comparing with the local points only decides as comparing with all would:
   nothing is refused without reason, nothing let through *)
Exact == Mode = "single" => \A p \in Points : Clear(p) <=> \A q \in pts : D2(p, q) >= m * m
Sound == \A p \in Points : Clear(p) => \A q \in pts : D2(p, q) >= m * m
=============================================================================
