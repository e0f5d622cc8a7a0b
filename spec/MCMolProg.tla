----------------------------- MODULE MCMolProg -----------------------------
(***************************************************************************)
(* Programs of molecules (C09): a molecule of four atoms whose origin is   *)
(* its second atom, then every sequence of K requests, legal or not, on it *)
(* or on a copy of it.  TLC checks the design of CZMol and writes every    *)
(* sequence out; harness/replay.py performs each on the real library and   *)
(* TraceMol validates what was recorded.                                   *)
(***************************************************************************)
EXTENDS CZMol, Json
CONSTANTS K
VARIABLE hist
vars == <<mols, hist>>

P4 == << <<360, 0, 0>>, <<0, 720, 0>>, <<0, 0, 1080>>, <<1440, 360, 720>>, <<720, 720, 0>> >>
Z4 == <<6, 7, 8, 14, 16>>
Setup == << [fn |-> "m_new", id |-> "a", ps |-> SubSeq(P4, 1, 4), zs |-> SubSeq(Z4, 1, 4), okind |-> "idx", p |-> Zero, i |-> 1, exc |-> ""] >>

Live == DOMAIN mols
N(x) == NAtoms(mols[x])
Mo(M, d, c, t) == [N |-> M, d |-> d, c |-> c, t |-> t, lk |-> TRUE, bo |-> FALSE]
Shift == <<Mo(IdentOri, 1, Zero, <<90, 0, 180>>)>>
Turn == <<Mo(<< <<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>> >>, 1, <<180, 0, 90>>, Zero)>>
Pair == Turn \o Shift

SeqOf(S) == LET RECURSIVE F(_) F(T) == IF T = {} THEN <<>> ELSE LET v == MinOf(T) IN <<v>> \o F(T \ {v}) IN F(S)
(* which atoms to remove: every set, and one named from both ends *)
Gone(n) == {SeqOf(S) : S \in SUBSET (0..(n - 1))} \cup {<<-1>>, <<0, 0 - n>>, <<n - 1, 0>>, <<n>>, <<0 - n - 1>>}
(* the library takes 1 - n .. n - 1; whether - n names the first atom is left open *)
Idx(n) == ((0 - n - 1)..n) \ {0 - n}
Rem(x, is, h, new) == [fn |-> "m_remove", id |-> x, is |-> is, hasnew |-> h, newok |-> TRUE, new |-> new]

Ops == UNION { LET n == N(x) IN
         {Rem(x, is, FALSE, 0) : is \in Gone(n)}
         \cup {Rem(x, is, TRUE, v) : is \in {<<0>>, <<1>>, <<0, 2>>, <<>>, <<-1>>}, v \in {0, n - 1, -1, 1 - n} \ {0 - n}}
         \cup {[fn |-> "m_idx", id |-> x, i |-> i, ok |-> TRUE] : i \in Idx(n)}
         \cup {[fn |-> "m_point", id |-> x, p |-> <<90, 90, 360>>],
               [fn |-> "m_tf", id |-> x, T |-> Shift, torg |-> TRUE], [fn |-> "m_tf", id |-> x, T |-> Turn, torg |-> TRUE],
               [fn |-> "m_tf", id |-> x, T |-> Turn, torg |-> FALSE],
               [fn |-> "m_pos", id |-> x, ps |-> [k \in 1..n |-> P4[6 - k]]],
               [fn |-> "m_spec", id |-> x, zs |-> [k \in 1..n |-> Z4[6 - k]]],
               [fn |-> "m_pos", id |-> x, ps |-> P4], [fn |-> "m_spec", id |-> x, zs |-> Z4],
               [fn |-> "m_atoms", id |-> x, ps |-> [k \in 1..n |-> P4[6 - k]], zs |-> [k \in 1..n |-> 14]],
               [fn |-> "m_reset", id |-> x],
               [fn |-> "m_ori", id |-> x, ok |-> TRUE, ori |-> << <<0, 0, 1>>, <<1, 0, 0>>, <<0, 1, 0>> >>],
               [fn |-> "m_prio", id |-> x, prio |-> 3, ok |-> TRUE]}
         : x \in Live }
       \cup (IF "b" \in Live THEN {} ELSE {[fn |-> "m_copy", id |-> "a", new |-> "b", T |-> T] : T \in {<<>>, Shift, Turn, Pair}})

(* an illegal request fails *)
Outcome(e) == [e EXCEPT !.exc = IF Legal(e) THEN "" ELSE "refused"]
Do(e) == LET f == Outcome([exc |-> ""] @@ e) IN MolNext(f) /\ hist' = Append(hist, e)
Init == mols = <<>> /\ hist = <<>>
Next == IF hist = <<>> THEN Do(Setup[1]) ELSE Len(hist) <= K /\ \E e \in Ops : Do(e)
Spec == Init /\ [][Next]_vars

Emit == Len(hist) = K + 1 => PrintT("CZPROG " \o ToJson(Tail(hist)))
ASSUME PrintT("CZSETUP " \o ToJson(Setup))

(* design *)
Anchored == \A x \in Live : mols[x].org.trk => \E k \in DOMAIN mols[x].atoms : mols[x].atoms[k].lab = mols[x].org.lab
Distinct == \A x \in Live : \A i, j \in DOMAIN mols[x].atoms : i # j => mols[x].atoms[i].lab # mols[x].atoms[j].lab
Last == hist'[Len(hist')]
LeavesTheRest == [][\A x \in Live : x # Last.id => mols'[x] = mols[x]]_vars
(* whatever happens, every surviving atom keeps its identity and its place in the order *)
LabsOf(m) == [k \in DOMAIN m.atoms |-> m.atoms[k].lab]
KeepsOrder == [][\A x \in Live : LET A == LabsOf(mols[x]) B == LabsOf(mols'[x]) IN
                   B = SelectSeq(A, LAMBDA l : l \in RangeOf(B))]_vars
(* the origin follows its atom: only a request naming another origin changes whom *)
KeepsOrigin == [][\A x \in Live : (mols'[x].org.trk # mols[x].org.trk \/ mols'[x].org.lab # mols[x].org.lab)
                     => Last.fn \in {"m_idx", "m_point"} \/ (Last.fn = "m_remove" /\ Last.hasnew)]_vars
Carried == [][\A x \in Live : (Last.fn = "m_tf" /\ Last.id = x /\ mols[x].org.trk) =>
                 OriginOf(mols'[x]) = OriginOf(TfMany(Last.T, mols[x], TRUE))]_vars
=============================================================================
