------------------------------ MODULE Stat64MC ------------------------------
(***************************************************************************)
(* The one-pass recurrence of package stat64 over exact rationals against  *)
(* the sums of module Measures, for all short series of some numbers, and  *)
(* any split into calls of Update and UpdateMulti.                         *)
(***************************************************************************)
EXTENDS Measures, TLC

CONSTANTS MaxN
Xs == {"-3", "0", "1/2", "1000000007", "-1000000005"}

VARIABLES s,         \* [n, sum, mean, ss]: the summary
          g          \* the same series in Measures
vars == <<s, g>>

Zero == [n |-> 0, sum |-> "0", mean |-> "0", ss |-> "0"]
Upd(a, v) == LET n == a.n + 1
                 delta == RSub(v, a.mean)
                 mean == RAdd(a.mean, RDiv(delta, RInt(n)))
             IN  [n |-> n, sum |-> RAdd(a.sum, v), mean |-> mean, ss |-> RAdd(a.ss, RMul(delta, RSub(v, mean)))]
RECURSIVE UpdAll(_, _), AddAll(_, _)
UpdAll(a, vs) == IF vs = << >> THEN a ELSE UpdAll(Upd(a, Head(vs)), Tail(vs))
AddAll(a, vs) == IF vs = << >> THEN a ELSE AddAll(AddSample(a, [k |-> "num", v |-> Head(vs)]), Tail(vs))

Init == s = Zero /\ g = NoStat
Update(v) == s' = Upd(s, v) /\ g' = AddAll(g, <<v>>)
UpdateMulti(vs) == s' = UpdAll(s, vs) /\ g' = AddAll(g, vs)
Reset == s' = Zero /\ g' = NoStat
Next == \/ \E v \in Xs : s.n < MaxN /\ Update(v)
        \/ \E v, w \in Xs : s.n + 1 < MaxN /\ UpdateMulti(<<v, w>>)
        \/ UpdateMulti(<< >>)
        \/ Reset
Spec == Init /\ [][Next]_vars

N(x) == [k |-> "num", v |-> x]
Exactly == /\ g.n = s.n /\ g.calm
           /\ s.n > 0 =>
              /\ s.sum = g.sum
              /\ REq(RMul(s.mean, RInt(s.n)), g.sum)
              /\ REq(s.ss, RSub(g.ssq, RDiv(RMul(g.sum, g.sum), RInt(g.n))))
              /\ RLe("0", s.ss)
\* the judgements of Measures accept the exact results, and reject results that are clearly wrong
Judged == s.n > 1 =>
  LET var == RDiv(s.ss, RInt(s.n - 1))
  IN  /\ SumOk(g, N(s.sum)) /\ MeanOk(g, N(s.mean)) /\ VarOk(g, N(var))
      /\ ~SumOk(g, N(RAdd(s.sum, "3000"))) /\ ~MeanOk(g, N(RAdd(s.mean, "1/50")))
      /\ ~VarOk(g, N(RAdd(RMul(var, "101/100"), "3"))) /\ ~VarOk(g, N("-1")) /\ ~VarOk(g, [k |-> "nan", v |-> "0"])
=============================================================================
