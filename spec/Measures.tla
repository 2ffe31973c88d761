------------------------------ MODULE Measures ------------------------------
(***************************************************************************)
(* What measures of a series of numbers or of a set of values are, exactly *)
(* and as computed in float64.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Exact

----------------------------------------------------------------------------
(* Numbers extended with infinities; "none" is no number seen yet *)

None == [k |-> "none", v |-> "0"]

ExtLe(a, b) == \/ a.k = "ninf" \/ b.k = "pinf"
               \/ a.k = "num" /\ b.k = "num" /\ RLe(a.v, b.v)

----------------------------------------------------------------------------
(* Statistics of one field of one record *)

NoStat == [n |-> 0, calm |-> TRUE, fin |-> TRUE, sum |-> "0", sabs |-> "0", mabs |-> "0", ssq |-> "0",
           max |-> None, min |-> None]

\* far enough from overflow and underflow for the rounding bounds below
Calm(x) == x.k = "num" /\ (x.v = "0" \/ (RLe(RPow2(-400), RAbs(x.v)) /\ RLe(RAbs(x.v), RPow2(400))))

\* finite, and so far from overflow that the difference of two such values is finite as well
Finite(x) == x.k = "num" /\ RLe(RAbs(x.v), RPow2(1022))

AddSample(g, x) ==
  LET c == g.calm /\ Calm(x)
      f == g.fin /\ Finite(x)
      a == RAbs(x.v)
  IN [n    |-> g.n + 1,
      calm |-> c,
      fin  |-> f,
      sum  |-> IF f THEN RAdd(g.sum, x.v) ELSE g.sum,
      sabs |-> IF f THEN RAdd(g.sabs, a) ELSE g.sabs,
      mabs |-> IF f /\ RLe(g.mabs, a) THEN a ELSE g.mabs,
      ssq  |-> IF c THEN RAdd(g.ssq, RMul(x.v, x.v)) ELSE g.ssq,
      max  |-> IF x.k = "nan" THEN g.max ELSE IF g.max = None \/ ExtLe(g.max, x) THEN x ELSE g.max,
      min  |-> IF x.k = "nan" THEN g.min ELSE IF g.min = None \/ ExtLe(x, g.min) THEN x ELSE g.min]

----------------------------------------------------------------------------
(* Which results are right.  got is [k, v].  The code computes in float64: *)
(* sums by addition, mean and variance by Welford's one-pass algorithm;    *)
(* the bounds are the textbook error bounds of those algorithms with a     *)
(* generous constant (u = 2^-53).                                          *)

CountOk(n, got) == got.k = "num" /\ got.v = RInt(n)

ExtremeOk(x, got) == x = None \/ (got.k = x.k /\ (x.k = "num" => got.v = x.v))

SumOk(g, got) ==
  g.n > 0 /\ g.fin /\ RLe(g.sabs, RPow2(1023)) =>       \* sums are exact where they underflow
    got.k = "num" /\ RLe(RAbs(RSub(got.v, g.sum)), RMul(RMul(RPow2(-50), RInt(g.n)), g.sabs))

MeanOk(g, got) ==
  g.n > 0 /\ g.fin =>
    got.k = "num" /\ RLe(RAbs(RSub(got.v, RDiv(g.sum, RInt(g.n)))),
                         RAdd(RMul(RMul(RPow2(-49), RInt(g.n)), g.mabs), RMul(RPow2(-1072), RInt(g.n))))

VarOk(g, got) ==
  g.n > 0 /\ g.calm =>
    IF g.n = 1 THEN got.k = "nan"
    ELSE /\ got.k = "num"
         /\ RLe("0", got.v)
         /\ LET S == RSub(g.ssq, RDiv(RMul(g.sum, g.sum), RInt(g.n)))     \* exact sum of squares about the mean
                E == RAbs(RSub(RMul(got.v, RInt(g.n - 1)), S))
                e == RMul(RPow2(-48), RInt(g.n))
                e2 == RMul(e, e)
                B == RMul(e2, g.ssq)
                D == RSub(E, B)
            IN  RLe(E, B) \/ RLe(RMul(D, D), RMul(e2, RMul(g.ssq, S)))

\* floor(10 * sqrt(2^p))
Sqrt10 == [p \in 4..18 |->
  CASE p = 4 -> 40 [] p = 5 -> 56 [] p = 6 -> 80 [] p = 7 -> 113 [] p = 8 -> 160 [] p = 9 -> 226
    [] p = 10 -> 320 [] p = 11 -> 452 [] p = 12 -> 640 [] p = 13 -> 905 [] p = 14 -> 1280
    [] p = 15 -> 1810 [] p = 16 -> 2560 [] p = 17 -> 3620 [] p = 18 -> 5120]

\* the least that few registers may give: estimates are skewed, and 1/LowDen of the number is as improbable
\* (less than 10^-10, by Chernoff's bound on the sum of the registers' terms)
LowDen == [p \in 4..18 |-> CASE p = 4 -> "5" [] p = 5 -> "7/2" [] p = 6 -> "5/2" [] OTHER -> "3"]

\* n distinct items estimated as got, with 2^p registers: 7 standard errors of 1.04/sqrt(2^p),
\* 11 for the small, skewed ones, plus rounding up
EstimateOk(p, n, got) ==
  /\ got.k = "num"
  /\ IF n = 0 THEN got.v = "0"
     ELSE /\ RLe("1", got.v)
          /\ RLe(RMul(RAbs(RSub(got.v, RInt(n))), RInt(Sqrt10[p])),
                 RAdd(RMul(RInt(IF p < 7 THEN 114 ELSE 73), RInt(n)), RInt(20 * Sqrt10[p])))
          /\ RLe(RInt(n), RMul(LowDen[p], RAdd(got.v, "10")))

=============================================================================
