----------------------------- MODULE BitBucket -----------------------------
(***************************************************************************)
(* Bit buckets: n counters of w bits (package bitbucket), their serialized *)
(* form, and those of bloom filters and hyperloglog counters, which wrap   *)
(* one.  A bit bucket is [n, w, nz] with nz the function from bucket       *)
(* numbers to values other than 0, so that large, sparse ones stay small.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Least(a, b) == IF a <= b THEN a ELSE b
Largest(w) == 2^w - 1                               \* largest value of w bits

NewBB(n, w) == [n |-> n, w |-> w, nz |-> << >>]
Val(b, i) == IF i \in DOMAIN b.nz THEN b.nz[i] ELSE 0
Put(b, i, v) ==
  IF v = 0 THEN [b EXCEPT !.nz = [j \in DOMAIN @ \ {i} |-> @[j]]]
  ELSE [b EXCEPT !.nz = [j \in DOMAIN @ \cup {i} |-> IF j = i THEN v ELSE @[j]]]

SetV(b, i, v) == Put(b, i, Least(v, Largest(b.w)))
IncV(b, i, v) == Put(b, i, Least(Val(b, i) + v, Largest(b.w)))
Zero(b)       == [b EXCEPT !.nz = << >>]
CountV(b, v)  == IF v = 0 THEN b.n - Cardinality(DOMAIN b.nz)
                 ELSE Cardinality({i \in DOMAIN b.nz : b.nz[i] = v})

----------------------------------------------------------------------------
(* Layout, version 1: version, width, n (8 bytes, little endian), then the *)
(* buckets one after the other, most significant bit first, filled up with *)
(* zeros to whole bytes.                                                   *)

BodyLen(n, w) == ((n * w) + 7) \div 8
HdrLen == 10
LenBB(n, w) == HdrLen + BodyLen(n, w)

\* bit j, from 0, of the buckets
BitAt(b, j) == IF j >= b.n * b.w THEN 0
               ELSE (Val(b, j \div b.w) \div 2^((b.w - 1) - (j % b.w))) % 2
ByteAt(b, k) == LET a == 8 * k
                IN  (128 * BitAt(b, a)) + (64 * BitAt(b, a + 1)) + (32 * BitAt(b, a + 2)) + (16 * BitAt(b, a + 3))
                    + (8 * BitAt(b, a + 4)) + (4 * BitAt(b, a + 5)) + (2 * BitAt(b, a + 6)) + BitAt(b, a + 7)
Body(b) == [k \in 1..BodyLen(b.n, b.w) |-> ByteAt(b, k - 1)]
LE64(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216, 0, 0, 0, 0>>
EncodeBB(b) == <<1, b.w>> \o LE64(b.n) \o Body(b)

\* value of bucket i in the byte sequence s
Unpack(s, w, i) ==
  LET bit(j) == (s[(j \div 8) + 1] \div 2^(7 - (j % 8))) % 2
      RECURSIVE from(_, _)
      from(j, acc) == IF j = (i + 1) * w THEN acc ELSE from(j + 1, (2 * acc) + bit(j))
  IN  from(i * w, 0)

\* Reading s: [ok, b, len], len being the number of bytes used, or ok = FALSE for an input
\* that is too short, of another version, or of a width that is not supported.
Bad == [ok |-> FALSE]
DecodeBB(s) ==
  IF Len(s) < HdrLen THEN Bad
  ELSE IF s[1] # 1 \/ s[2] > 8 THEN Bad
  ELSE IF \E i \in 6..10 : s[i] # 0 THEN Bad               \* more buckets than any input here has bytes
  ELSE LET n == s[3] + (256 * s[4]) + (65536 * s[5])
           w == s[2]
       IN  IF Len(s) < LenBB(n, w) THEN Bad
           ELSE LET body == SubSeq(s, HdrLen + 1, LenBB(n, w))
                    v == [i \in 0..(n - 1) |-> Unpack(body, w, i)]
                IN  [ok |-> TRUE, len |-> LenBB(n, w),
                     b |-> [n |-> n, w |-> w, nz |-> [i \in {i \in 0..(n - 1) : v[i] # 0} |-> v[i]]]]

\* bloom filters and hyperloglog counters: version, parameter (k or p), bit bucket
EncodeS(par, b) == <<1, par>> \o EncodeBB(b)
DecodeS(s) ==
  IF Len(s) < 2 \/ (Len(s) >= 1 /\ s[1] # 1) THEN Bad
  ELSE LET d == DecodeBB(SubSeq(s, 3, Len(s)))
       IN  IF d.ok THEN [ok |-> TRUE, par |-> s[2], b |-> d.b, len |-> d.len + 2] ELSE Bad
=============================================================================
