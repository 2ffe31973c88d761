---------------------------- MODULE BitBucketMC ----------------------------
(***************************************************************************)
(* The algorithm of package bitbucket, which works on 16 bits of the packed *)
(* data around a bucket, against the array of module BitBucket.            *)
(***************************************************************************)
EXTENDS BitBucket, TLC, Json, Bitwise, SequencesExt

CONSTANTS Ws, Ns, MaxOps, Emit, Full       \* widths, sizes; all values for widths up to Full, some for others

VARIABLES b,        \* the array
          d,        \* the packed bytes, 1-based
          hist
vars == <<b, d, hist>>

Values(w) == IF w <= Full THEN 0..Largest(w)
             ELSE {0, 1, Largest(w) \div 2, Largest(w)}
\* increments with few different sums
Incs(w) == IF w <= Full THEN Values(w) \cup {255} ELSE {0, Largest(w) \div 2, Largest(w), 255}
Args(w) == Values(w) \cup {255} \cup (IF w < 8 THEN {Largest(w) + 1} ELSE {})

----------------------------------------------------------------------------
(* extract, get, set, incn *)

Extract(bytes, o, w) ==
  LET index == o \div 8
      hi == bytes[index + 1]
      lo == IF index < Len(bytes) - 1 THEN bytes[index + 2] ELSE 0
      shift == (16 - (o % 8)) - w
  IN  [data |-> (256 * hi) + lo, shift |-> shift, mask |-> ((2^w) - 1) * 2^shift, index |-> index]

GetA(bytes, w, i) == LET x == Extract(bytes, i * w, w) IN (x.data & x.mask) \div 2^x.shift
StoreA(bytes, x, v) ==
  LET data == (x.data & (65535 - x.mask)) | (v * 2^x.shift)
      b1 == [bytes EXCEPT ![x.index + 1] = data \div 256]
  IN  IF x.index < Len(bytes) - 1 THEN [b1 EXCEPT ![x.index + 2] = data % 256] ELSE b1
SetA(bytes, w, i, v) == StoreA(bytes, Extract(bytes, i * w, w), Least(v, Largest(w)))
IncA(bytes, w, i, v) == LET x == Extract(bytes, i * w, w)
                        IN  StoreA(bytes, x, Least(((x.data & x.mask) \div 2^x.shift) + Least(v, Largest(w)), Largest(w)))

----------------------------------------------------------------------------
Init == \E w \in Ws, n \in Ns :
          /\ b = NewBB(n, w)
          /\ d = [k \in 1..BodyLen(n, w) |-> 0]
          /\ hist = << >>

Note(op, i, v) == hist' = IF Emit THEN Append(hist, [op |-> op, i |-> i, v |-> v]) ELSE hist

Set(i, v) == b' = SetV(b, i, v) /\ d' = SetA(d, b.w, i, v) /\ Note("set", i, v)
Inc(i, v) == b' = IncV(b, i, v) /\ d' = IncA(d, b.w, i, v) /\ Note("incn", i, v)
Reset     == b' = Zero(b) /\ d' = [k \in DOMAIN d |-> 0] /\ Note("reset", 0, 0)

Pick(S) == IF Emit /\ S # {} THEN {RandomElement(S)} ELSE S         \* one random choice per step, for simulation
Next == \/ /\ Emit => Len(hist) < MaxOps
           /\ \/ \E i \in Pick(0..(b.n - 1)), v \in Pick(Args(b.w)) : Set(i, v) \/ (v \in Incs(b.w) /\ Inc(i, v))
              \/ Reset
        \/ Emit /\ Len(hist) = MaxOps /\ Note("end", 0, 0) /\ UNCHANGED <<b, d>>
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Packed  == d = Body(b)
Agree   == \A i \in 0..(b.n - 1) : GetA(d, b.w, i) = Val(b, i) /\ Val(b, i) <= Largest(b.w)
Counted == \A v \in Args(b.w) : CountV(b, v) = Cardinality({i \in 0..(b.n - 1) : GetA(d, b.w, i) = v})

\* serialization: reading what was written gives the same; no proper prefix is accepted; an extension is
\* read with the same result, and its length shows the trailing data
RoundTrip ==
  LET s == EncodeBB(b)
      r == DecodeBB(s)
      z == EncodeS(5, b)
  IN  /\ Len(s) = LenBB(b.n, b.w)
      /\ r.ok /\ r.b = b /\ r.len = Len(s)
      /\ \A k \in 0..(Len(s) - 1) : ~DecodeBB(SubSeq(s, 1, k)).ok
      /\ DecodeBB(s \o <<255>>) = r
      /\ DecodeS(z).ok /\ DecodeS(z).b = b /\ DecodeS(z).par = 5 /\ DecodeS(z).len = Len(z)
      /\ \A k \in 0..(Len(z) - 1) : ~DecodeS(SubSeq(z, 1, k)).ok

\* an operation on a bucket changes no other
Independent == [][\A i \in 0..(b.n - 1) : Cardinality({j \in 0..(b.n - 1) : Val(b', j) # Val(b, j)}) <= 1 \/ b'.nz = << >>]_vars

Emitted == Emit /\ Len(hist) > MaxOps => PrintT("HIST " \o ToJson([n |-> b.n, w |-> b.w, ops |-> SubSeq(hist, 1, MaxOps)]))
=============================================================================
