---------------------------- MODULE MCMolecule ----------------------------
(***************************************************************************)
(* Design model for C09: the index arithmetic a molecule uses to follow    *)
(* its origin atom refines tracking by identity.                           *)
(*   lab  sequence of atom identities, in order                            *)
(*   trk, idx  concrete origin: a Python index                             *)
(*   who  abstract origin: an identity, 0 for a fixed point                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT N
VARIABLES lab, trk, idx, who
vars == <<lab, trk, idx, who>>

Len1 == Len(lab)
Norm(i) == i % Len1                        \* Python index -> 0-based
Kept(R) == {k \in 0..(Len1 - 1) : k \notin R}
(* numpy.searchsorted(kept, v) for a v that is kept *)
Rank(R, v) == Cardinality({k \in Kept(R) : k < v})
Del(R) == [j \in 1..Cardinality(Kept(R)) |->
             lab[1 + CHOOSE k \in Kept(R) : Rank(R, k) = j - 1]]

Init == lab = [k \in 1..N |-> k] /\ trk = FALSE /\ idx = 0 /\ who = 0
SetIdx == \E i \in (1 - Len1)..(Len1 - 1) :
            /\ trk' = TRUE /\ idx' = i /\ who' = lab[1 + Norm(i)] /\ UNCHANGED lab
SetPoint == trk' = FALSE /\ who' = 0 /\ UNCHANGED <<lab, idx>>
Remove == \E R \in SUBSET (0..(Len1 - 1)) :
   \/ /\ ~ trk /\ R # {} /\ lab' = Del(R) /\ UNCHANGED <<trk, idx, who>>
   \/ /\ trk /\ Norm(idx) \notin R
      /\ lab' = Del(R) /\ idx' = Rank(R, Norm(idx)) /\ UNCHANGED <<trk, who>>
   \/ \E n \in (1 - Len1)..(Len1 - 1) :
        /\ Norm(n) \notin R
        /\ lab' = Del(R) /\ trk' = TRUE /\ idx' = Rank(R, Norm(n)) /\ who' = lab[1 + Norm(n)]
Next == (Len1 > 0) /\ (SetIdx \/ SetPoint \/ Remove)
Spec == Init /\ [][Next]_vars

(* the origin followed is the atom it was set to *)
Follows == trk => (Len1 > 0 /\ lab[1 + Norm(idx)] = who)
FixedIsFixed == ~ trk => who = 0
OrderKept == \A i, j \in 1..Len1 : i < j => lab[i] < lab[j]
=============================================================================
