-------------------------------- MODULE Hll --------------------------------
(***************************************************************************)
(* A hyperloglog counter: registers, each the largest rank of the items    *)
(* that fall into it.  An item contributes one <<register, rank>>, which   *)
(* depends on nothing but the item (and the precision).                    *)
(***************************************************************************)
EXTENDS BitBucket

CONSTANTS M, MaxRank, Items

VARIABLES regs,        \* bit bucket of M buckets
          contrib,     \* item |-> <<register, rank>>
          added
vars == <<regs, contrib, added>>

Merge(b, c) == IF c[2] > Val(b, c[1]) THEN SetV(b, c[1], c[2]) ELSE b

Init == /\ regs = NewBB(M, 6)
        /\ contrib \in [Items -> (0..(M - 1)) \X (1..MaxRank)]
        /\ added = {}
Add(x) == regs' = Merge(regs, contrib[x]) /\ added' = added \cup {x} /\ UNCHANGED contrib
Reset  == regs' = Zero(regs) /\ added' = {} /\ UNCHANGED contrib
Next == (\E x \in Items : Add(x)) \/ Reset
Spec == Init /\ [][Next]_vars

Ranks(i) == {0} \cup {contrib[x][2] : x \in {x \in added : contrib[x][1] = i}}
\* the state is a function of the set of items: order and repetition leave no trace
SetDetermined == \A i \in 0..(M - 1) : Val(regs, i) \in Ranks(i) /\ \A r \in Ranks(i) : r <= Val(regs, i)
Changed == {i \in 0..(M - 1) : Val(regs, i) # Val(regs', i)}
OneGrows == [][added' = {} \/ (Cardinality(Changed) <= 1 /\ \A i \in Changed : Val(regs', i) > Val(regs, i))]_vars
AgainNothing == [][added' = added => regs' = regs]_vars
=============================================================================
