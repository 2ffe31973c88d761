------------------------------- MODULE Bloom -------------------------------
(***************************************************************************)
(* A bloom filter: M bits, and for every item a set of at most K positions *)
(* that depends on nothing but the item.  probe is arbitrary, so what TLC  *)
(* establishes holds whatever hash functions an implementation uses; the   *)
(* double hashing of package bloom is shown to stay inside the filter.     *)
(***************************************************************************)
EXTENDS BitBucket

CONSTANTS M, K, Items

VARIABLES bits,        \* bit bucket of M one-bit buckets
          probe,       \* item |-> its positions
          added,       \* the items added since the last reset
          file         \* a serialized filter
vars == <<bits, probe, added, file>>

HasIn(b, x) == \A i \in probe[x] : Val(b, i) = 1
RECURSIVE SetAll(_, _)
SetAll(b, is) == IF is = {} THEN b ELSE LET i == CHOOSE i \in is : TRUE IN SetAll(SetV(b, i, 1), is \ {i})

Init == /\ bits = NewBB(M, 1)
        /\ probe \in [Items -> {s \in SUBSET (0..(M - 1)) : s # {} /\ Cardinality(s) <= K}]
        /\ added = {}
        /\ file = [s |-> EncodeS(K, bits), added |-> {}]
Add(x)  == /\ bits' = SetAll(bits, probe[x])
           /\ added' = added \cup {x}
           /\ UNCHANGED <<probe, file>>
Reset   == bits' = Zero(bits) /\ added' = {} /\ UNCHANGED <<probe, file>>
Write   == file' = [s |-> EncodeS(K, bits), added |-> added] /\ UNCHANGED <<bits, probe, added>>
Read    == bits' = DecodeS(file.s).b /\ added' = file.added /\ UNCHANGED <<probe, file>>
Next == (\E x \in Items : Add(x)) \/ Reset \/ Write \/ Read
Spec == Init /\ [][Next]_vars

NoFalseNegatives == \A x \in added : HasIn(bits, x)
EmptyHasNothing  == added = {} => \A x \in Items : ~HasIn(bits, x)
ExactlyTheProbed == DOMAIN bits.nz = UNION {probe[x] : x \in added}
OnlyGrows == [][\/ DOMAIN bits.nz \subseteq DOMAIN bits'.nz
                \/ bits' = Zero(bits)
                \/ bits' = DecodeS(file.s).b]_vars

----------------------------------------------------------------------------
(* The double hashing of hasher.next, with small numbers for a and b *)

RECURSIVE Positions(_, _, _, _)
Positions(a, b, m, k) == IF k = 0 THEN << >> ELSE <<a % m>> \o Positions((a + b) % m, b, m, k - 1)
Hashed(a, b0, m0, k) ==
  LET b == IF b0 % 2 = 0 THEN b0 + 1 ELSE b0
      m == IF m0 % 2 = 1 /\ m0 > 2 THEN m0 - 1 ELSE m0
  IN  Positions(a, b, m, k)
ASSUME \A m \in 1..24, a \in 0..30, b \in 0..30 : \A i \in 1..4 : Hashed(a, b, m, 4)[i] \in 0..(m - 1)
\* for a number of bits that is a power of two the positions of an item are different
ASSUME \A m \in {4, 8, 16}, a \in 0..30, b \in 0..30 : LET p == Hashed(a, b, m, 4) IN \A i, j \in 1..4 : i # j => p[i] # p[j]
=============================================================================
