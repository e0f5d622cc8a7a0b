----------------------------- MODULE MCAGenProg -----------------------------
(***************************************************************************)
(* Programs of amorphous generators: every sequence of K requests on a     *)
(* generator, a copy of it and a volume which owns one.  The blocks        *)
(* themselves are abstract here (a fresh block is one token point); TLC    *)
(* checks what becomes of them and writes every sequence out.              *)
(* harness/agplay.py performs each on the real library, TraceAGen          *)
(* validates the real blocks.                                              *)
(***************************************************************************)
EXTENDS CZAGen, Json
CONSTANTS K
VARIABLES st, hist
vars == <<st, hist>>

Mo(M, c, t, lk, bo) == [N |-> M, d |-> 1, c |-> c, t |-> t, lk |-> lk, bo |-> bo]
Shift(lk) == Mo(Ident, Zero, <<1500, 0, -2500>>, lk, FALSE)
Turn(lk, bo) == Mo(<< <<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>> >>, <<1000, 0, 500>>, Zero, lk, bo)
Flip == Mo(<< <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, -1>> >>, <<0, 0, 700>>, Zero, TRUE, FALSE)
Motions(vol) == {Shift(TRUE), Turn(TRUE, FALSE), Turn(TRUE, TRUE), Flip} \cup (IF vol THEN {Shift(FALSE), Turn(FALSE, FALSE)} ELSE {})

(* a box, cut by a sphere or by an oblique plane *)
Lo == <<1000, -2000, 500>>
Hi == <<6000, 3000, 6500>>
Corner(k) == <<IF k % 2 = 0 THEN Lo[1] ELSE Hi[1], IF (k \div 2) % 2 = 0 THEN Lo[2] ELSE Hi[2], IF k \div 4 = 0 THEN Lo[3] ELSE Hi[3]>>
Box == [i \in 1..8 |-> Corner(i - 1)]
Faces == << <<<<1, 0, 0>>, Hi>>, <<<<0, 1, 0>>, Hi>>, <<<<0, 0, 1>>, Hi>>, <<<<-1, 0, 0>>, Lo>>, <<<<0, -1, 0>>, Lo>>, <<<<0, 0, -1>>, Lo>> >>
Regions == { [planes |-> Faces, spheres |-> <<>>], [planes |-> Faces, spheres |-> << <<<<3000, 500, 3500>>, 2600>> >>],
             [planes |-> Append(Faces, <<<<1, 1, 0>>, <<4500, 500, 0>>>>), spheres |-> <<>>] }
Asked == { << <<-4000, 1000, 0>>, <<1000, 5000, 5000>> >>, << <<2000, 8000, -3000>>, <<-2000, 3000, 3000>>, <<0, 5000, 0>> >> }

New == [fn |-> "am_new", id |-> "a", dens |-> 100, m |-> 1400, z |-> 6]
Setup == <<New>>
Live == DOMAIN st
Look(x) == IF st[x].vol THEN {[fn |-> "am_look", id |-> x, pts |-> <<>>]} ELSE {[fn |-> "am_look", id |-> x, pts |-> p] : p \in Asked}
Ops == UNION {Look(x)
              \cup {[fn |-> "am_reuse", id |-> x, on |-> b] : b \in {TRUE, FALSE} \ {st[x].ag.reuse}}
              \cup {[fn |-> "am_set", id |-> x, dens |-> 50, m |-> 1400, z |-> 14]}
              \cup {[fn |-> "am_tf", id |-> x, T |-> T] : T \in Motions(st[x].vol)}
              : x \in Live}
       \cup (IF "b" \in Live THEN {} ELSE {[fn |-> "am_copy", id |-> "a", new |-> "b", T |-> T] : T \in {<<>>, <<Turn(TRUE, FALSE), Shift(TRUE)>>}})
       \cup (IF "v" \in Live THEN {[fn |-> "am_give", id |-> "a", to |-> "v"]}
             ELSE {[fn |-> "am_vol", id |-> "a", new |-> "v", reg |-> r, pts |-> Box] : r \in Regions})
       \cup (IF "v" \in Live /\ "w" \notin Live THEN {[fn |-> "am_copy", id |-> "v", new |-> "w", T |-> T] : T \in {<<>>, <<Shift(TRUE), Turn(FALSE, FALSE)>>}} ELSE {})

(* a block of this model: one point, numbered by the moment it was made *)
Fresh == << <<3000, 500, 1000 * Len(hist)>> >>
Meant(e) == IF e.fn # "am_look" THEN e
            ELSE e @@ [block |-> LET x == st[e.id].ag IN IF x.reuse /\ x.has THEN x.block ELSE Fresh]
Do(e) == st' = AMStep(st, Meant(e)) /\ hist' = Append(hist, e)
Init == st = <<>> /\ hist = <<>>
Next == IF hist = <<>> THEN Do(New) ELSE Len(hist) <= K /\ \E e \in Ops : Do(e)
Spec == Init /\ [][Next]_vars

(* sequences in which something is looked at more than once, or moved or copied before *)
Emit == Len(hist) = K + 1 => PrintT("CZPROG " \o ToJson(Tail(hist)))
ASSUME PrintT("CZSETUP " \o ToJson(Setup))

(* design *)
Last == hist'[Len(hist')]
Target(e) == IF e.fn \in {"am_copy", "am_vol"} THEN e.new ELSE IF e.fn = "am_give" THEN e.to ELSE e.id
Alone == [][\A x \in Live : x # Target(Last) => st'[x] = st[x]]_vars
(* reuse, once there is a block: the same material, only moved *)
Kept == [][\A x \in Live : (st[x].ag.reuse /\ st[x].ag.has /\ Target(Last) = x /\ Last.fn = "am_look") => st'[x].ag.block = st[x].ag.block]_vars
(* otherwise looking makes new material *)
Renewed == [][\A x \in Live : (~st[x].ag.reuse /\ Target(Last) = x /\ Last.fn = "am_look") =>
                 \A y \in Live : ~st[y].ag.has \/ st'[x].ag.block # st[y].ag.block \/ st[y].ag.block = Fresh]_vars
(* switching on reuse, setting parameters or having a volume move alone leave the block *)
Still == [][\A x \in Live : (Target(Last) = x /\ Last.fn \in {"am_reuse", "am_set"}) => st'[x].ag.block = st[x].ag.block /\ st'[x].ag.bz = st[x].ag.bz]_vars
Unlocked == [][\A x \in Live : (Target(Last) = x /\ Last.fn = "am_tf" /\ st[x].vol /\ ~Last.T.lk) => st'[x].ag = st[x].ag]_vars
(* the region of a volume and what it owns move together when locked: a point of
   the block is inside afterwards exactly if it was before *)
Within(x) == {i \in DOMAIN st[x].ag.block : MIn(AMHalf(st[x].reg), st[x].ag.block[i], 0)}
Together == [][\A x \in Live : (Target(Last) = x /\ Last.fn = "am_tf" /\ st[x].vol /\ Last.T.lk /\ ~Last.T.bo) => Within(x)' = Within(x)]_vars
=============================================================================
