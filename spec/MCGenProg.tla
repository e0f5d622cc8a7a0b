----------------------------- MODULE MCGenProg ------------------------------
(***************************************************************************)
(* Programs of generators: every sequence of K requests on a crystal with  *)
(* a strain field and a post-transform and on a copy of it.  TLC checks    *)
(* the design of CZGen and writes every sequence out; harness/genplay.py   *)
(* performs each on the real library, TraceGen validates what it recorded. *)
(* Focus: "strain" (C10), "post" (C11), "copy" (C08).                      *)
(***************************************************************************)
EXTENDS CZGen, Json
CONSTANTS K, Focus
VARIABLES st, hist
vars == <<st, hist>>

Cell1 == [B |-> << <<720, 0, 0>>, <<0, 540, 0>>, <<180, 0, 900>> >>, D |-> 2,
          sites |-> << [f |-> <<0, 0, 0>>, z |-> 6], [f |-> <<1, 1, 0>>, z |-> 14] >>]
Cell2 == [B |-> << <<900, 0, 0>>, <<0, 900, 0>>, <<0, 0, 540>> >>, D |-> 2,
          sites |-> << [f |-> <<0, 0, 0>>, z |-> 14], [f |-> <<1, 0, 1>>, z |-> 6] >>]
H(vals, mode, fix) == [k |-> "h", vals |-> vals, q |-> 10, mode |-> mode, fix |-> fix, o |-> <<180, 360, 0>>]
I(f, mode, fix) == [k |-> "i", f |-> f, a |-> 1, c |-> <<1, -2, 1>>, mode |-> mode, fix |-> fix, o |-> <<180, 360, 0>>]
S1 == H(<<11, 10, 9>>, "crystal", FALSE)
S2 == H(<<10, 11, 10, 1, 0, 2>>, "standard", TRUE)
Strains == {S1, S2, H(<<10, 1, 0, 0, 10, 0, 0, 0, 12>>, "crystal", TRUE), H(<<11, 0, 1, 0, 10, -1, 0, 0, 9>>, "standard", FALSE),
            I("const", "crystal", FALSE), I("cyc", "crystal", FALSE), I("quad", "standard", TRUE)}
Sub(t, s) == [k |-> "sub", t |-> t, s |-> s, all |-> TRUE]
Sh == [k |-> "shift", v |-> <<90, 0, 180>>]
P1 == <<Sub(<<6, 14>>, <<14, 29>>)>>
P2 == <<Sh, [k |-> "neg"]>>
Posts == {P1, P2, <<[k |-> "neg"], Sh>>, <<Sub(<<6>>, <<14>>), Sub(<<14>>, <<79>>)>>, <<[k |-> "plus", v |-> 1], Sub(<<6>>, <<14>>)>>}

Mo(M, d, c, t, bo) == [N |-> M, d |-> d, c |-> c, t |-> t, lk |-> TRUE, bo |-> bo]
Shift == Mo(Ident, 1, Zero, <<90, 0, 180>>, FALSE)
Turn(bo) == Mo(<< <<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>> >>, 1, <<180, 0, 90>>, Zero, bo)
Flip == Mo(<< <<-1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>, 1, <<90, 0, 0>>, Zero, FALSE)
Motions == {Shift, Turn(FALSE), Turn(TRUE), Flip}

Setup == << [fn |-> "g_new", id |-> "a", o |-> <<90, 0, 0>>] @@ Cell1 >>
         \o (IF Focus = "strain" THEN << [fn |-> "g_strain", id |-> "a", s |-> S1] >>
             ELSE IF Focus = "post" THEN << [fn |-> "g_post", id |-> "a", post |-> P1] >>
             ELSE << [fn |-> "g_strain", id |-> "a", s |-> S2], [fn |-> "g_post", id |-> "a", post |-> P2] >>)
Live == DOMAIN st.gens
Other(x) == IF x = "a" THEN "b" ELSE "a"
Two == "b" \in Live

StrainOps(x) ==
  {[fn |-> "g_strain", id |-> x, s |-> s] : s \in IF Focus = "strain" THEN Strains ELSE {S1, I("cyc", "standard", FALSE)}}
  \cup (IF st.gens[x].sid = 0 THEN {} ELSE
        LET s == st.S[st.gens[x].sid] IN
        {[fn |-> "g_sorg", id |-> x, o |-> <<0, 180, 90>>]}
        \cup (IF s.fix THEN {[fn |-> "g_sgen", id |-> x]} ELSE {})
        \cup (IF s.k = "h" THEN {[fn |-> "g_smat", id |-> x, vals |-> <<9, 12, 10>>]} ELSE {})
        \cup (IF s.k = "h" \/ s.f # "quad" THEN {[fn |-> "g_smode", id |-> x, mode |-> IF s.mode = "crystal" THEN "standard" ELSE "crystal"]} ELSE {}))
  \cup (IF Two /\ st.gens[Other(x)].sid # 0 THEN {[fn |-> "g_share", id |-> x, from |-> Other(x)]} ELSE {})
PostOps(x) ==
  {[fn |-> "g_post", id |-> x, post |-> p] : p \in IF Focus = "post" THEN Posts ELSE {P1}}
  \cup (IF st.gens[x].pid = 0 THEN {} ELSE
        {[fn |-> "g_padd", id |-> x, p |-> p] : p \in {Sh, [k |-> "neg"], Sub(<<14>>, <<6>>)}})
  \cup (IF Two /\ st.gens[Other(x)].pid # 0 THEN {[fn |-> "g_pshare", id |-> x, from |-> Other(x)]} ELSE {})
Ops == UNION {StrainOps(x) \cup PostOps(x)
              \cup {[fn |-> "g_org", id |-> x, o |-> <<180, 90, 0>>], [fn |-> "g_struct", id |-> x] @@ Cell2, [fn |-> "g_look", id |-> x]}
              \cup {[fn |-> "g_tf", id |-> x, T |-> T] : T \in Motions}
              : x \in Live}
       \cup (IF Two THEN {} ELSE {[fn |-> "g_copy", id |-> "a", new |-> "b", T |-> T] : T \in {<<>>, <<Turn(FALSE)>>, <<Turn(FALSE), Shift>>, <<Shift, Turn(TRUE)>>}})

Do(e) == st' = GenStep(st, e) /\ hist' = Append(hist, e)
N0 == Len(Setup)
Init == st = GEmpty /\ hist = <<>>
Next == IF Len(hist) < N0 THEN Do(Setup[Len(hist) + 1]) ELSE Len(hist) < N0 + K /\ \E e \in Ops : Do(e)
Spec == Init /\ [][Next]_vars

Emit == Len(hist) = N0 + K => PrintT("CZPROG " \o ToJson(SubSeq(hist, N0 + 1, N0 + K)))
ASSUME PrintT("CZSETUP " \o ToJson(Setup))

(* design.  Fractions are equal when they cross-multiply to the same. *)
Same(f, h) == VMul(h[2], f[1]) = VMul(f[2], h[1])
Moved(T, f) == (* image under a motion of a position num/den *)
  <<VAdd(VDiv(MatVec(T.N, VSub(f[1], VMul(f[2], T.c))), T.d), VMul(f[2], VAdd(T.c, T.t))), f[2]>>
Probe == {<<90, 0, 0>>, <<450, 270, 360>>, <<-180, 540, 90>>}
Last == hist'[Len(hist')]

(* a strain which is homogeneous keeps its origin where it is, and is affine *)
Affine == \A x \in Live : LET v == View(st, x) IN
  (v.s.k = "h") => LET o == StrainOrigin(v.g, v.s) F(p) == Strained(v.g, v.s, p) IN
     /\ Same(F(o), <<o, 1>>)
     /\ \A p, q \in Probe : LET r == VSub(VAdd(p, q), o) IN
          Same(<<VSub(VAdd(F(p)[1], F(q)[1]), VMul(F(p)[2], o)), F(p)[2]>>, F(r))
(* in the frame of a crystal, strain moves with the crystal *)
Carried == [][ \A x \in Live :
  (Last.fn = "g_tf" /\ Last.id = x /\ ~Last.T.bo) =>
     LET v == View(st, x) w == View(st', x) IN
     (v.s.k # "none" /\ v.s.mode = "crystal" /\ ~v.s.fix /\ (v.s.k = "h" \/ v.s.f # "quad")) =>
        \A p \in Probe : Same(Strained(w.g, w.s, MapPoint(Last.T, p)), Moved(Last.T, Strained(v.g, v.s, p))) ]_vars
(* in the frame of the world, with an origin of its own, it does not notice the crystal *)
Blind == [][ \A x \in Live : LET v == View(st, x) w == View(st', x) IN
  (v.s.k # "none" /\ v.s.mode = "standard" /\ v.s.fix /\ Last.fn \in {"g_tf", "g_org", "g_struct"}) =>
     \A p \in Probe : Same(Strained(w.g, w.s, p), Strained(v.g, v.s, p)) ]_vars
(* a request on one generator leaves the other one alone, unless they share a field *)
Shared(x, y) == \/ (st.gens[x].sid # 0 /\ st.gens[x].sid = st.gens[y].sid)
                \/ (st.gens[x].pid # 0 /\ st.gens[x].pid = st.gens[y].pid)
Alone == [][ \A x \in Live : (x # Last.id /\ ~Shared(x, Last.id)) => View(st', x) = View(st, x) ]_vars
(* attached fields and the crystal do not disturb each other *)
Orthogonal == [][ \A x \in Live : LET v == View(st, x) w == View(st', x) IN
  /\ (Last.fn \in {"g_org", "g_struct", "g_tf"} => v.s = w.s /\ v.post = w.post)
  /\ (Last.fn \in {"g_strain", "g_smat", "g_smode", "g_sorg", "g_sgen", "g_share"} => v.g = w.g /\ v.post = w.post)
  /\ (Last.fn \in {"g_post", "g_padd", "g_pshare"} => v.g = w.g /\ v.s = w.s) ]_vars
(* the steps of a sequence act one after the other *)
InTurn == \A x \in Live : LET ps == View(st, x).post IN
  \A n \in 0..Len(ps) : \A p \in Probe : \A z \in {6, 14} : LET a == <<p[1], p[2], p[3], z>> IN
     PostAll(ps, a) = PostAll(SubSeq(ps, n + 1, Len(ps)), PostAll(SubSeq(ps, 1, n), a))
=============================================================================
