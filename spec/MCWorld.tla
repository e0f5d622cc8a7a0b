------------------------------ MODULE MCWorld ------------------------------
(***************************************************************************)
(* A small world, explored exhaustively: a fixed set-up (two crystals, a   *)
(* box, a sphere, a truncated octahedron, a molecule, multi-volumes, a     *)
(* scene) followed by every sequence of K operations of an alphabet.       *)
(*                                                                         *)
(* TLC checks the design of CZWorld on every state and writes every        *)
(* sequence of operations out ("CZPROG"); harness/replay.py performs each  *)
(* of them on the real library, and TraceWorld validates what was recorded.*)
(***************************************************************************)
EXTENDS CZWorld, Json
CONSTANTS K, Profile
VARIABLE hist
vars == <<heap, hist>>

------------------------------------------------------------------------------
(* the set-up *)
E3 == << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>
Site(x, y, z, s) == [f |-> <<x, y, z>>, z |-> s]
Box(c, h) == [i \in 1..8 |-> <<c[1] + (IF i % 2 = 1 THEN -h ELSE h),
                               c[2] + (IF (i - 1) % 4 < 2 THEN -h ELSE h),
                               c[3] + (IF i <= 4 THEN -h ELSE h)>>]
Octa(c, h) == << VAdd(c, <<h, 0, 0>>), VAdd(c, <<-h, 0, 0>>), VAdd(c, <<0, h, 0>>),
                 VAdd(c, <<0, -h, 0>>), VAdd(c, <<0, 0, h>>), VAdd(c, <<0, 0, -h>>) >>
CellA == [o |-> <<0, 0, 0>>, B |-> <<<<720, 0, 0>>, <<0, 720, 0>>, <<0, 0, 720>>>>, D |-> 2,
          sites |-> <<Site(0, 0, 0, 29)>>]
CellB == [o |-> <<180, 0, 90>>, B |-> <<<<720, 0, 0>>, <<180, 720, 0>>, <<0, 0, 540>>>>, D |-> 2,
          sites |-> <<Site(0, 0, 0, 79), Site(1, 1, 1, 47)>>]
SphereA == [t |-> "sp", c |-> <<540, 0, 0>>, r |-> 720, t2 |-> 0]
PlaneA == [t |-> "pl", n |-> <<1, 1, 0>>, p |-> <<0, 720, 0>>, t2 |-> 0]
PlaneB == [t |-> "pl", n |-> <<0, 1, 2>>, p |-> <<0, 0, 360>>, t2 |-> 0]

Gen(id, c) == [ev |-> "gen", id |-> id, kind |-> "crystal", o |-> c.o, B |-> c.B, D |-> c.D, sites |-> c.sites]
Alg(id, a) == [ev |-> "alg", id |-> id, a |-> a]
Vol(id, pts, algs, gen, org, prio, enc) ==
  [ev |-> "vol", id |-> id, pts |-> pts, algs |-> algs, gen |-> gen, org |-> org, prio |-> prio, enc |-> enc]

Setup ==
  << Gen("g1", CellA), Gen("g2", CellB),
     Alg("a1", SphereA), Alg("a2", PlaneA), Alg("a3", PlaneB),
     Vol("v1", Box(Zero, 720), <<>>, "g1", <<>>, 0, <<>>),
     Vol("v2", <<>>, <<"a1">>, "g2", <<>>, 0, Box(<<540, 0, 0>>, 810)),
     Vol("v3", Octa(<<0, 360, 0>>, 1260), <<"a2">>, "g1", <<90, 90, 0>>, 1, <<>>),
     [ev |-> "mol", id |-> "o1", prio |-> 0, trk |-> TRUE, i |-> 2, p |-> Zero,
      atoms |-> << <<90, 180, 270, 6>>, <<1500, 0, 0, 8>>, <<0, 1080, 0, 8>> >>],
     [ev |-> "prio", id |-> "o1", prio |-> 0],
     [ev |-> "multi", id |-> "m1", kids |-> <<"v2", "v3">>, prio |-> 1],
     [ev |-> "multi", id |-> "m2", kids |-> <<"v1", "m1">>, prio |-> 0],
     [ev |-> "scene", id |-> "s1", objs |-> <<"v1", "m1", "o1">>, b |-> <<<<0, 0, 0>>, <<1800, 1800, 1800>>>>] >>

------------------------------------------------------------------------------
(* operations *)
Mo(N, d, c, t, lk, bo) == [N |-> N, d |-> d, c |-> c, t |-> t, lk |-> lk, bo |-> bo]
Rz == << <<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>> >>
Mx == << <<-1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>
R3 == << <<1, -2, 2>>, <<2, -1, -2>>, <<2, 2, 1>> >>
R5 == << <<3, -4, 0>>, <<4, 3, 0>>, <<0, 0, 5>> >>
Sh == << <<1, 1, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>
Shift(lk, bo) == Mo(E3, 1, Zero, <<360, -180, 90>>, lk, bo)
Turn(lk, bo) == Mo(Rz, 1, <<90, 0, 180>>, Zero, lk, bo)
Flip(lk, bo) == Mo(Mx, 1, <<180, 0, 0>>, Zero, lk, bo)
Tilt(lk, bo) == Mo(R5, 5, Zero, Zero, lk, bo)
Shear(lk, bo) == Mo(Sh, 1, Zero, Zero, lk, bo)

Tf(id, Ts) == [ev |-> "tf", id |-> id, T |-> Ts]
Prio(id, p) == [ev |-> "prio", id |-> id, prio |-> p]
Pop(id) == [ev |-> "populate", id |-> id]
RECURSIVE Below(_, _)
RECURSIVE BelowAll(_, _)
(* what copying id copies, parents first *)
Below(h, id) == <<id>> \o (IF h[id].k = "multi" THEN BelowAll(h, h[id].kids) ELSE <<>>)
BelowAll(h, ids) == IF ids = <<>> THEN <<>> ELSE Below(h, Head(ids)) \o BelowAll(h, Tail(ids))
Cop(id, Ts, gen, setprio, prio, newpts) ==
  LET olds == Below(heap, id)
      tag == "c" \o ToString(Len(hist))
  IN [ev |-> "copy", id |-> id, T |-> Ts, gen |-> gen, setprio |-> setprio, prio |-> prio, newpts |-> newpts,
      map |-> [i \in DOMAIN olds |-> <<olds[i], tag \o "." \o olds[i]>>], root |-> tag \o "." \o id]
CopyOf(id, Ts) == Cop(id, Ts, "", FALSE, 0, <<>>)
SetA(id, i, a) == [ev |-> "setalg", id |-> id, i |-> i, a |-> a]
Org(id, o) == [ev |-> "setorg", id |-> id, o |-> o]
Str(id, c) == [ev |-> "setstruct", id |-> id, B |-> c.B, D |-> c.D, sites |-> c.sites]
AddP(id, ps) == [ev |-> "addpts", id |-> id, pts |-> ps]
SetP(id, ps) == [ev |-> "setpts", id |-> id, pts |-> ps]
AddA(id, a) == [ev |-> "addalg", id |-> id, a |-> a]
AddG(id, g, org) == [ev |-> "addgen", id |-> id, gen |-> g, org |-> org]
(* the latest copy of an object, "" if there is none *)
RECURSIVE LastCopy(_, _)
LastCopy(id, i) == IF i = 0 THEN ""
                   ELSE IF hist[i].ev = "copy" /\ hist[i].id = id THEN hist[i].root
                   ELSE LastCopy(id, i - 1)
Twin(id) == LastCopy(id, Len(hist))
(* op on the twin of id, if it has one *)
OnTwin(id, Op(_)) == IF Twin(id) = "" THEN <<>> ELSE <<Op(Twin(id))>>
Per(ids, Op(_)) == [i \in DOMAIN ids |-> Op(ids[i])]

Used(id) == \E m \in DOMAIN heap : (heap[m].k = "multi" /\ id \in RangeOf(heap[m].kids))
                                   \/ (heap[m].k = "scene" /\ id \in RangeOf(heap[m].objs))
AddIf(twin, e) == IF twin = "" \/ Used(twin) THEN <<>> ELSE <<e>>

OpsScene ==       \* C01
  LET objs == <<"v1", "m1", "o1">> IN
     Per(objs, LAMBDA x : Prio(x, -1)) \o Per(objs, LAMBDA x : Prio(x, 2)) \o Per(objs, LAMBDA x : Prio(x, 1))
  \o <<Prio("v2", 3), Prio("v3", 0), Pop("v1"), Pop("m1"), Pop("s1")>>
  \o Per(objs, LAMBDA x : Tf(x, <<Shift(TRUE, FALSE)>>))
  \o Per(objs, LAMBDA x : Tf(x, <<Turn(TRUE, FALSE), Flip(TRUE, FALSE)>>))
  \o <<Tf("v3", <<Tilt(TRUE, FALSE)>>), AddG("v2", "g1", <<>>), AddP("v1", << <<0, 0, 1440>> >>), Org("v1", <<180, 0, 0>>)>>
  \o <<CopyOf("v1", <<Shift(TRUE, FALSE)>>), CopyOf("o1", <<>>)>>
  \o AddIf(Twin("v1"), [ev |-> "sadd", id |-> "s1", o |-> Twin("v1")])
  \o AddIf(Twin("v1"), [ev |-> "madd", id |-> "m1", kids |-> <<Twin("v1")>>])
  \o AddIf(Twin("o1"), [ev |-> "sadd", id |-> "s1", o |-> Twin("o1")])

OpsMulti ==       \* C02
  LET objs == <<"v1", "v2", "v3", "m1">> IN
     Per(objs, LAMBDA x : Prio(x, -1)) \o Per(objs, LAMBDA x : Prio(x, 0)) \o Per(objs, LAMBDA x : Prio(x, 2))
  \o <<Pop("v2"), Pop("m1"), Pop("m2")>>
  \o Per(<<"v2", "m1", "m2">>, LAMBDA x : Tf(x, <<Shift(TRUE, FALSE)>>))
  \o Per(<<"m1", "m2">>, LAMBDA x : Tf(x, <<Turn(TRUE, FALSE), Tilt(TRUE, FALSE)>>))
  \o <<CopyOf("m1", <<>>), CopyOf("m2", <<Flip(TRUE, FALSE)>>), Cop("m1", <<>>, "g2", TRUE, 3, <<>>), CopyOf("v1", <<>>)>>
  \o AddIf(Twin("v1"), [ev |-> "madd", id |-> "m1", kids |-> <<Twin("v1")>>])
  \o AddIf(Twin("m1"), [ev |-> "madd", id |-> "m2", kids |-> <<Twin("m1")>>])
  \o OnTwin("m1", LAMBDA x : Prio(x, -2)) \o OnTwin("m2", LAMBDA x : Prio(x, -2))
  \o OnTwin("m1", LAMBDA x : Tf(x, <<Turn(TRUE, FALSE)>>)) \o OnTwin("m1", LAMBDA x : Pop(x)) \o OnTwin("m2", LAMBDA x : Pop(x))

OpsMotion ==      \* C06
  LET objs == <<"v1", "v3", "m1", "m2", "o1">> IN
     Per(objs, LAMBDA x : Tf(x, <<Shift(TRUE, FALSE)>>))
  \o Per(objs, LAMBDA x : Tf(x, <<Turn(TRUE, FALSE)>>))
  \o Per(objs, LAMBDA x : Tf(x, <<Flip(TRUE, FALSE)>>))
  \o Per(objs, LAMBDA x : Tf(x, <<Shift(TRUE, FALSE), Tilt(TRUE, FALSE)>>))
  \o Per(objs, LAMBDA x : Tf(x, <<Mo(R3, 3, <<90, 0, 0>>, Zero, TRUE, FALSE)>>))
  \o <<Pop("v1"), Pop("m2")>>

OpsFlags ==       \* C07
  LET objs == <<"g1", "v1", "v3", "m1">>
      F(k) == CASE k = 1 -> <<TRUE, FALSE>> [] k = 2 -> <<TRUE, TRUE>> [] k = 3 -> <<FALSE, FALSE>> [] k = 4 -> <<FALSE, TRUE>>
      All(M(_, _)) == [i \in 1..16 |-> Tf(objs[1 + ((i - 1) \div 4)], <<M(F(1 + ((i - 1) % 4))[1], F(1 + ((i - 1) % 4))[2])>>)]
  IN All(Shift) \o All(Turn) \o All(Flip)
     \o [i \in 1..8 |-> Tf(<<"g2", "v1">>[1 + ((i - 1) \div 4)], <<Shear(F(1 + ((i - 1) % 4))[1], F(1 + ((i - 1) % 4))[2])>>)]
     \o <<CopyOf("g1", <<Turn(FALSE, TRUE)>>), CopyOf("v1", <<Shift(TRUE, TRUE)>>), CopyOf("m1", <<Flip(FALSE, FALSE)>>), Pop("v1"), Pop("m1")>>

OpsCopy ==        \* C08
  LET M == <<Turn(TRUE, FALSE)>>
      objs == <<"g1", "a1", "v1", "v2", "o1", "m1">>
      free == <<"g1", "a1", "o1">>
  IN Per(objs, LAMBDA x : CopyOf(x, <<>>)) \o Per(<<"g1", "v1", "m1">>, LAMBDA x : CopyOf(x, M))
  \o <<Cop("v1", <<>>, "g2", FALSE, 0, <<>>), Cop("v1", <<>>, "", TRUE, 4, Octa(Zero, 1080)), Cop("m1", <<>>, "g1", TRUE, 5, <<>>)>>
  \o Per(objs, LAMBDA x : Tf(x, M))
  \o <<Org("g1", <<90, 180, 0>>), Org("v1", <<90, 180, 0>>), Str("g1", CellB), SetA("a1", 1, [SphereA EXCEPT !.r = 900]),
       SetA("v2", 1, [SphereA EXCEPT !.c = <<360, 0, 0>>]), SetA("v3", 1, PlaneB), AddA("v1", "a3"), AddP("v1", << <<0, 0, 1440>> >>),
       SetP("v1", Octa(Zero, 1260)), AddG("v1", "g2", <<>>), AddG("v3", "g1", <<0, 0, 90>>), Prio("v1", 7), Prio("m1", 7)>>
  \o OnTwin("g1", LAMBDA x : Org(x, <<0, 0, 360>>)) \o OnTwin("g1", LAMBDA x : Str(x, CellB)) \o OnTwin("g1", LAMBDA x : Tf(x, M))
  \o OnTwin("a1", LAMBDA x : SetA(x, 1, [SphereA EXCEPT !.r = 810]))
  \o OnTwin("v1", LAMBDA x : Org(x, <<0, 0, 360>>)) \o OnTwin("v1", LAMBDA x : AddP(x, << <<0, 1440, 0>> >>))
  \o OnTwin("v1", LAMBDA x : AddA(x, "a2")) \o OnTwin("v1", LAMBDA x : Tf(x, M)) \o OnTwin("v1", LAMBDA x : Prio(x, -3))
  \o OnTwin("v2", LAMBDA x : SetA(x, 1, [SphereA EXCEPT !.r = 810])) \o OnTwin("v2", LAMBDA x : Tf(x, M))
  \o OnTwin("o1", LAMBDA x : Tf(x, M)) \o OnTwin("m1", LAMBDA x : Tf(x, M)) \o OnTwin("m1", LAMBDA x : Prio(x, -3))

(* rational rotations leave the grid when repeated: one of each kind *)
Denoms(e) == IF e.ev \in {"tf", "copy"} THEN {e.T[i].d : i \in DOMAIN e.T} \ {1} ELSE {}
Spent == UNION {Denoms(hist[i]) : i \in DOMAIN hist}
Allowed(e) == Denoms(e) \cap Spent = {}

Ops == CASE Profile = "C01" -> OpsScene
         [] Profile = "C02" -> OpsMulti
         [] Profile = "C06" -> OpsMotion
         [] Profile = "C07" -> OpsFlags
         [] Profile = "C08" -> OpsCopy

------------------------------------------------------------------------------
Init == heap = <<>> /\ hist = <<>>
Do(e) == Act(e) /\ hist' = Append(hist, e)
Next == IF Len(hist) < Len(Setup) THEN Do(Setup[Len(hist) + 1])
        ELSE /\ Len(hist) < Len(Setup) + K
             /\ \E i \in DOMAIN Ops : Allowed(Ops[i]) /\ Do(Ops[i])
Spec == Init /\ [][Next]_vars

Emit == Len(hist) = Len(Setup) + K =>
          PrintT("CZPROG " \o ToJson(SubSeq(hist, Len(Setup) + 1, Len(hist))))
ASSUME PrintT("CZSETUP " \o ToJson(Setup))

------------------------------------------------------------------------------
(* Design of the specification *)
Ready == Len(hist) >= Len(Setup)
Scenes == {x \in DOMAIN heap : heap[x].k = "scene"}
Multis == {x \in DOMAIN heap : heap[x].k = "multi"}
Parts(x) == IF heap[x].k = "scene" THEN heap[x].objs ELSE heap[x].kids

(* The library sorts the parts by priority, numbers the levels and tests an
   atom of a part on level k against the parts up to the end of that level:
   this computes Resolve, whatever order parts of one level come in.        *)
RECURSIVE Sorted(_, _)
Sorted(h, ids) ==
  IF ids = <<>> THEN <<>>
  ELSE LET m == MinOf({h[ids[i]].prio : i \in DOMAIN ids})
           f == CHOOSE i \in DOMAIN ids : h[ids[i]].prio = m /\ \A j \in 1..(i - 1) : h[ids[j]].prio # m
       IN <<ids[f]>> \o Sorted(h, [j \in 1..(Len(ids) - 1) |-> IF j < f THEN ids[j] ELSE ids[j + 1]])
Algorithm(h, ids) ==
  LET s == Sorted(h, ids)
      levels == {h[s[i]].prio : i \in DOMAIN s}
      start(p) == MinOf({i \in DOMAIN s : h[s[i]].prio = p})
      stop(p) == LET up == {q \in levels : q > p} IN IF up = {} THEN Len(s) ELSE start(MinOf(up)) - 1
  IN UNION { {a \in AtomsOf(h, s[i]) : \A j \in 1..stop(h[s[i]].prio) : j = i \/ ~ In(h, s[j], Pos(a))}
             : i \in DOMAIN s }
PrecedenceIsComputed == Ready => \A x \in Scenes \cup Multis : Algorithm(heap, Parts(x)) = AtomsOf(heap, x)

(* Space belongs to whoever comes first: no atom that is left lies inside a part
   that precedes its owner, and a part nobody precedes keeps all of its atoms. *)
FirstKeepsAll ==
  Ready => \A x \in Scenes \cup Multis : \A i \in DOMAIN Parts(x) :
     (\A j \in DOMAIN Parts(x) : j # i => heap[Parts(x)[j]].prio > heap[Parts(x)[i]].prio)
        => AtomsOf(heap, Parts(x)[i]) \subseteq AtomsOf(heap, x)
(* atoms are inside the region they fill *)
AtomsInside ==
  Ready => \A x \in DOMAIN heap : heap[x].k \in {"vol", "multi"} =>
     \A a \in AtomsOf(heap, x) : In(heap, x, Pos(a))

(* A rigid motion, applied to an object and its crystals, carries region and
   atoms along; so does copying with a motion.  (checked where the motion is the
   whole operation and does not stop at a shared part)                          *)
RECURSIVE MapAtoms(_, _)
MapAtoms(Ts, S) == IF Ts = <<>> THEN S ELSE MapAtoms(Tail(Ts), {MapAtom(Head(Ts), a) : a \in S})
RECURSIVE MapPts(_, _)
MapPts(Ts, x) == IF Ts = <<>> THEN x ELSE MapPts(Tail(Ts), MapPoint(Head(Ts), x))
Rigidly(Ts) == \A i \in DOMAIN Ts : IsRigid(Ts[i]) /\ Ts[i].lk /\ ~ Ts[i].bo
(* sample points stay on the grid under every motion of the alphabets *)
Samples == { <<x, y, z>> : x \in {-1350, 0, 450}, y \in {-450, 450, 900}, z \in {0, 1350} }
Equivariant ==
  LET e == hist'[Len(hist')] IN
  (Ready /\ e.ev \in {"tf", "copy"}) =>
     LET new == IF e.ev = "tf" THEN e.id ELSE e.root IN
     (heap[e.id].k \in {"vol", "mol", "multi"} /\ Rigidly(e.T) /\ (e.ev = "copy" => e.gen = "" /\ e.newpts = <<>> /\ ~ e.setprio))
       => /\ AtomsOf(heap', new) = MapAtoms(e.T, AtomsOf(heap, e.id))
          /\ \A x \in Samples : In(heap', new, MapPts(e.T, x)) = In(heap, e.id, x)
CarriesAlong == [][Equivariant]_vars
(* nothing but its target (and what is below it) is changed by an operation *)
RECURSIVE Reach(_, _)
Reach(h, id) == {id} \cup (IF h[id].k = "multi" THEN UNION {Reach(h, h[id].kids[i]) : i \in DOMAIN h[id].kids} ELSE {})
OnlyTheTarget ==
  LET e == hist'[Len(hist')] IN
  Ready => \A x \in DOMAIN heap : (e.ev = "copy" \/ x \notin Reach(heap, e.id)) => heap'[x] = heap[x]
LeavesTheRest == [][OnlyTheTarget]_vars
=============================================================================
