------------------------------- MODULE CZCell -------------------------------
(***************************************************************************)
(* Crystals made from a unit cell or a space group (C05).                   *)
(*                                                                         *)
(* A cell is described by twice its metric tensor, e.G2[i][j] = 2 b_i.b_j,  *)
(* in integers; its lengths and angles are what the library is given.       *)
(* Fractional coordinates are integers over 24.  A symmetry operation is    *)
(* <<R, t>>: x -> R x + t with t over 24; Ops gives generators of the       *)
(* groups (International Tables A, standard settings).                      *)
(***************************************************************************)
EXTENDS CZGeom

Q == 24
Id3 == << <<1,0,0>>, <<0,1,0>>, <<0,0,1>> >>
Inv3 == << <<0-1,0,0>>, <<0,0-1,0>>, <<0,0,0-1>> >>
Z2   == << <<0-1,0,0>>, <<0,0-1,0>>, <<0,0,1>> >>
Y2   == << <<0-1,0,0>>, <<0,1,0>>, <<0,0,0-1>> >>
X2   == << <<1,0,0>>, <<0,0-1,0>>, <<0,0,0-1>> >>
MZ   == << <<1,0,0>>, <<0,1,0>>, <<0,0,0-1>> >>
Cyc3 == << <<0,0,1>>, <<1,0,0>>, <<0,1,0>> >>              (* z, x, y *)
YXZ  == << <<0,1,0>>, <<1,0,0>>, <<0,0,1>> >>              (* y, x, z *)
YXMZ == << <<0,1,0>>, <<1,0,0>>, <<0,0,0-1>> >>            (* y, x, -z *)
Hex3 == << <<0,0-1,0>>, <<1,0-1,0>>, <<0,0,1>> >>          (* -y, x-y, z *)
MYMX == << <<0,0-1,0>>, <<0-1,0,0>>, <<0,0,1>> >>          (* -y, -x, z *)
MYX  == << <<0,0-1,0>>, <<1,0,0>>, <<0,0,1>> >>            (* -y, x, z *)
O == <<0,0,0>>
F1 == <<Id3, <<0,12,12>>>>
F2 == <<Id3, <<12,0,12>>>>
I1 == <<Id3, <<12,12,12>>>>

Ops(g) ==
  CASE g = 1   -> {}
    [] g = 2   -> {<<Inv3, O>>}
    [] g = 4   -> {<<Y2, <<0,12,0>>>>}
    [] g = 12  -> {<<Id3, <<12,12,0>>>>, <<Y2, O>>, <<Inv3, O>>}
    [] g = 14  -> {<<Y2, <<0,12,12>>>>, <<Inv3, O>>}
    [] g = 19  -> {<<Z2, <<12,0,12>>>>, <<Y2, <<0,12,12>>>>}
    [] g = 62  -> {<<Z2, <<12,0,12>>>>, <<Y2, <<0,12,0>>>>, <<Inv3, O>>}
    [] g = 136 -> {<<Z2, O>>, <<MYX, <<12,12,12>>>>, <<Y2, <<12,12,12>>>>, <<Inv3, O>>}
    [] g = 139 -> {I1, <<Z2, O>>, <<MYX, O>>, <<Y2, O>>, <<Inv3, O>>}
    [] g = 152 -> {<<Hex3, <<0,0,8>>>>, <<YXMZ, O>>}
    [] g = 166 -> {<<Id3, <<16,8,8>>>>, <<Hex3, O>>, <<YXMZ, O>>, <<Inv3, O>>}
    [] g = 186 -> {<<Hex3, O>>, <<Z2, <<0,0,12>>>>, <<MYMX, O>>}
    [] g = 194 -> {<<Hex3, O>>, <<Z2, <<0,0,12>>>>, <<YXMZ, O>>, <<Inv3, O>>}
    [] g = 198 -> {<<Z2, <<12,0,12>>>>, <<Y2, <<0,12,12>>>>, <<Cyc3, O>>}
    [] g = 205 -> {<<Z2, <<12,0,12>>>>, <<Y2, <<0,12,12>>>>, <<Cyc3, O>>, <<Inv3, O>>}
    [] g = 215 -> {<<Z2, O>>, <<Y2, O>>, <<Cyc3, O>>, <<YXZ, O>>}
    [] g = 216 -> {F1, F2, <<Z2, O>>, <<Y2, O>>, <<Cyc3, O>>, <<YXZ, O>>}
    [] g = 221 -> {<<Z2, O>>, <<Y2, O>>, <<Cyc3, O>>, <<YXMZ, O>>, <<Inv3, O>>}
    [] g = 225 -> {F1, F2, <<Z2, O>>, <<Y2, O>>, <<Cyc3, O>>, <<YXMZ, O>>, <<Inv3, O>>}
    [] g = 229 -> {I1, <<Z2, O>>, <<Y2, O>>, <<Cyc3, O>>, <<YXMZ, O>>, <<Inv3, O>>}

Mod24(v) == <<v[1] % Q, v[2] % Q, v[3] % Q>>
Act(op, x) == Mod24(VAdd(MatVec(op[1], x), op[2]))
RECURSIVE Close(_, _)
Close(ops, S) == LET N == S \cup {Act(op, x) : op \in ops, x \in S} IN IF N = S THEN S ELSE Close(ops, N)
Orbit(g, x) == Close(Ops(g), {Mod24(x)})

(* the sites of the cell, modulo lattice vectors *)
CellSites(e) == UNION {{<<x[1], x[2], x[3], e.sites[i].z>> : x \in Orbit(e.group, e.sites[i].f)} : i \in DOMAIN e.sites}

Interval(lo, hi, c) == {c + Q * n : n \in ((0 - ((c - lo) \div Q))..((hi - c) \div Q))}
CellClauses(e) ==
  LET S == CellSites(e)
      Obs == RangeOf(e.obs)
      (* the region asked for is lo-1/2..hi+1/2: no site lies on a face *)
      Want == UNION {{<<x, y, z, s[4]>> : x \in Interval(e.lo[1], e.hi[1], s[1]), y \in Interval(e.lo[2], e.hi[2], s[2]),
                       z \in Interval(e.lo[3], e.hi[3], s[3])} : s \in S}
  IN IF e.exc # "" THEN {"unexpected-" \o e.exc}
     ELSE (IF \A i, j \in 1..3 : Abs(e.gram[i][j] - 500 * e.G2[i][j]) <= 2 + Abs(e.G2[i][j]) \div 100 THEN {} ELSE {"wrong-lattice"})
       \cup (IF e.det > 0 THEN {} ELSE {"left-handed-cell"})
       \cup (IF e.off = 0 /\ \A a \in Obs : <<a[1] % Q, a[2] % Q, a[3] % Q, a[4]>> \in S THEN {} ELSE {"not-a-site"})
       \cup (IF Want \ Obs = {} THEN {} ELSE {"missing-site"})
       \cup (IF Cardinality(Obs) = Len(e.obs)
             \/ \E i, j \in DOMAIN e.sites : i < j /\ Mod24(e.sites[j].f) \in Orbit(e.group, e.sites[i].f)     (* no proper crystal *)
             THEN {} ELSE {"repeated-atom"})
       \cup (IF e.org THEN {} ELSE {"wrong-origin"})
       \cup (IF e.same THEN {} ELSE {"inputs-changed"})

CellFns == {"cell"}
=============================================================================
