------------------------------ MODULE MCStack ------------------------------
(***************************************************************************)
(* How planar defects are built (C18, C19): a crystal is the position of   *)
(* each of its layers, a function of all integers given by an offset, a    *)
(* sense (and, for wurtzite, a phase). The defect planes are taken from the *)
(* top down; each adds a grain that fills everything on and below its       *)
(* plane with the previous grain's crystal after one more move:             *)
(*   fcc  "sf"  shift by a partial vector;   "tw"  mirror at the plane      *)
(*   wz         half a cell along c and one lateral step, the sense of which *)
(*              alternates and depends on the kind of plane.                *)
(* TLC explores all planes, spacings and kinds of defects, and checks that   *)
(* the result is a perfect close packing with the requested faults, and that *)
(* the scan CZStack uses on real crystals recovers exactly what was built.   *)
(***************************************************************************)
EXTENDS CZStack
CONSTANTS L, NMax, MinSeps, Kind
VARIABLES grains,      \* <<plane, crystal>>, first one (plane L) on top
          n, m,        \* requested number of defects, least distance
          todo,        \* planes still to be used, descending
          kinds,       \* kinds of defects so far
          cut          \* do the planes run through bonds (0) or between layers (1)
vars == <<grains, n, m, todo, kinds, cut>>

Layers == 0..(L - 1)
(* crystals *)
FccPos(c, k) == (c.o + c.sg * k) % 3
WzPos(c, k) == (c.o + (IF (k + c.ph) % 2 = 0 THEN 0 ELSE c.st)) % 3
PosOf(c, k) == IF Kind = "fcc" THEN FccPos(c, k) ELSE WzPos(c, k)

Planes(nn, mm) == {P \in SUBSET (mm..(L - mm - 1)) :
                     /\ Cardinality(P) = nn
                     /\ \A p, q \in P : p = q \/ Abs(p - q) >= mm}
RECURSIVE Descending(_)
Descending(P) == IF P = {} THEN <<>> ELSE LET t == MaxOf(P) IN <<t>> \o Descending(P \ {t})

First == IF Kind = "fcc" THEN [o |-> 0, sg |-> 1] ELSE [o |-> 0, st |-> 1, ph |-> 0]
Init == /\ m \in MinSeps /\ n \in 0..NMax
        /\ todo \in {Descending(P) : P \in Planes(n, m)}
        /\ grains = << <<L, IF Kind = "fcc" THEN [o |-> 0, sg |-> 1] ELSE [o |-> 0, st |-> 1, ph |-> 0]>> >>
        /\ kinds = <<>>
        /\ cut \in IF Kind = "fcc" THEN {1} ELSE {0, 1}
Last1 == grains[Len(grains)][2]
Host == grains[1][2]

Shifted(c) == [c EXCEPT !.o = (@ - c.sg) % 3]                  \* every layer to its neighbour's place
Mirrored(c, p) == [o |-> (c.o + 2 * p * c.sg) % 3, sg |-> 0 - c.sg]
(* wurtzite: down by one layer (half a cell), and sideways *)
Slid(c, p, i) ==
  LET polarity == IF i % 2 = 1 THEN 1 ELSE 0 - 1
      onehost == (p + Host.ph) % 2 = 0                        \* which of the two kinds of planes of the host
      step == IF onehost THEN 2 ELSE 1
  IN [o |-> (c.o + polarity * step) % 3, st |-> c.st, ph |-> (c.ph + 1) % 2]

Add(p, c, k) == /\ grains' = Append(grains, <<p, c>>)
                /\ kinds' = Append(kinds, k)
                /\ todo' = Tail(todo)
                /\ UNCHANGED <<n, m, cut>>
Next == todo # <<>> /\
        LET p == Head(todo) IN
        IF Kind = "fcc" THEN \/ Add(p, Shifted(Last1), "sf")
                             \/ Add(p, Mirrored(Last1, p), "tw")
        ELSE Add(p, Slid(Last1, p, Len(kinds) + 1), "sf")
Spec == Init /\ [][Next]_vars

(* the crystal that is seen: the last grain that reaches up to layer k *)
Owner(k) == MaxOf({i \in DOMAIN grains : k <= grains[i][1]})
Seen == [k \in Layers |-> PosOf(grains[Owner(k)][2], k)]

ClosePacked == \A k \in 0..(L - 2) : Seen[k] # Seen[k + 1]
Faults == Cardinality({i \in DOMAIN kinds : kinds[i] = "sf"})
Twins == Cardinality({i \in DOMAIN kinds : kinds[i] = "tw"})
(* fcc: a twin makes one hexagonal layer, a stacking fault two next to each other *)
Hexagonal == {k \in 1..(L - 2) : Seen[k - 1] = Seen[k + 1]}
FccFaults ==
  (Kind = "fcc" /\ m >= 2) =>
     /\ Cardinality(Hexagonal) = Twins + 2 * Faults
     /\ \A i \in DOMAIN kinds : LET p == grains[i + 1][1] IN
          /\ p \in Hexagonal
          /\ (kinds[i] = "sf") => (p + 1) \in Hexagonal
(* wurtzite: layer k is a sheet of cations with the anions bound to them on top;
   where the planes run between the two (cut 0), the cations of the plane's
   layer belong to the new grain, their anions to the grain before it         *)
OwnerOfAnion(k) == IF cut = 0 THEN MaxOf({i \in DOMAIN grains : k < grains[i][1]} \cup {1}) ELSE Owner(k)
BondsIntact == Kind = "wz" => \A k \in Layers : PosOf(grains[OwnerOfAnion(k)][2], k) = Seen[k]
(* wurtzite: all layers but the one at each fault are hexagonal *)
WzFaults ==
  Kind = "wz" => LET cubic == (1..(L - 2)) \ Hexagonal IN
     m >= 2 => /\ Cardinality(cubic) = Len(kinds)
               /\ \A i \in DOMAIN kinds : {grains[i + 1][1], grains[i + 1][1] + 1} \cap cubic # {}

(* the scan of CZStack explains what was built, with these numbers and kinds *)
Req == [N |-> n, m |-> m, sf |-> TRUE, tw |-> TRUE]
ScanFinds ==
  (Kind = "fcc" /\ todo = <<>>) =>
     \E x \in Explanations(Seen, 0, L - 1, Req) : x.c = n /\ x.t = (Twins > 0) /\ x.g = (Faults > 0)
ScanRefuses ==              \* ... and not with fewer, where all of them are visible
  (Kind = "fcc" /\ todo = <<>> /\ m >= 3) =>
     Explanations(Seen, 0, L - 1, [Req EXCEPT !.N = n - 1]) = {}
=============================================================================
