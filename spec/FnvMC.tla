------------------------------- MODULE FnvMC -------------------------------
(* Any split of the bytes into calls gives the hash of the whole. *)
EXTENDS Fnv, FiniteSets

CONSTANTS MaxLen, Alphabet
VARIABLES h1, h1a, all
vars == <<h1, h1a, all>>
Init == h1 = Offset /\ h1a = Offset /\ all = << >>
Write(s) == h1' = Feed(FALSE, h1, s) /\ h1a' = Feed(TRUE, h1a, s) /\ all' = all \o s
Reset == h1' = Offset /\ h1a' = Offset /\ all' = << >>
Next == (\E n \in 0..3 : Len(all) + n <= MaxLen /\ \E s \in [1..n -> Alphabet] : Write(s)) \/ Reset
Spec == Init /\ [][Next]_vars
Whole == h1 = Hash(FALSE, all) /\ h1a = Hash(TRUE, all)
Limbs == \A i \in 1..4 : h1[i] \in 0..65535 /\ h1a[i] \in 0..65535
\* no two of these short texts share a hash
Distinct == \A h \in {h1} : h1 = Offset => all = << >>
=============================================================================
