------------------------------ MODULE StarbowMC ------------------------------
(***************************************************************************)
(* Starbow with a few collations and small sets of values.  hist records   *)
(* the requests; the invariants compare the records that the operational   *)
(* definitions of Starbow build up with the statistics of the accepted     *)
(* observations, computed from hist from scratch.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Exact

CONSTANTS MaxOps, MaxLines, Emit

NumberTexts == {"1", "2", "-3", "nan"}
Numbers == [s \in NumberTexts |-> CASE s = "1" -> [k |-> "num", v |-> "1"]
                                    [] s = "2" -> [k |-> "num", v |-> "2"]
                                    [] s = "-3" -> [k |-> "num", v |-> "-3"]
                                    [] s = "nan" -> [k |-> "nan", v |-> "0"]]

INSTANCE Starbow WITH Num <- Numbers, NumTexts <- NumberTexts

M(m) == [m |-> m, p |-> 0]
SchA == [name |-> "A", keys |-> <<"a">>, rows |-> <<"count">>,
         measures |-> <<[f |-> "x", ms |-> <<M("sum"), M("max"), M("min"), M("mean"), M("var")>>]>>]
SchB == [name |-> "B", keys |-> <<"a", "b">>, rows |-> <<"count">>,
         measures |-> <<[f |-> "y", ms |-> <<[m |-> "uniquecount", p |-> 10]>>],
                        [f |-> "x", ms |-> <<M("max")>>]>>]
SchC == [name |-> "C", keys |-> << >>, rows |-> << >>,
         measures |-> <<[f |-> "y", ms |-> <<M("sum"), [m |-> "uniquecount", p |-> 6]>>]>>]
Schemas == <<SchA, SchB, SchC>>

\* an optional field
Opt(f, vs) == {<< >>} \cup {<<[f |-> f, v |-> v]>> : v \in vs}
Rows == {a \o b \o x \o y : a \in Opt("a", {"1", "2"}), b \in Opt("b", {"1"}),
                            x \in Opt("x", {"1", "-3", "bad"}), y \in Opt("y", {"2", "bad", "nan"})}
RowSample == {r \in Rows : Len(r) >= 2 /\ (Find(r, "b") # 0 => Find(r, "y") # 0)}
OkLine(r) == [ok |-> TRUE, row |-> r]
BadLine   == [ok |-> FALSE, row |-> << >>]

CONSTANT AllRows       \* use every row (simulation) or the sample (exhaustive)
LineSet == {OkLine(r) : r \in (IF AllRows THEN Rows ELSE RowSample)} \cup {BadLine}

VARIABLES sts, hist
vars == <<sts, hist>>

Init == sts = [i \in DOMAIN Schemas |-> NewStore(Schemas[i])] /\ hist = << >>

Post(ls) == LET r == PostLines(sts, ls, 1, FALSE)
            IN  /\ sts' = r.sts
                /\ hist' = Append(hist, [lines |-> ls, ok |-> r.ok])

Batches == UNION {[1..n -> LineSet] : n \in 0..MaxLines}

Sim == \* one random batch per step, for simulation
       \E n \in {RandomElement(0..MaxLines)} : \E ls \in {[i \in 1..n |-> RandomElement(LineSet)]} : Post(ls)

Next == Len(hist) < MaxOps /\ (IF AllRows THEN Sim ELSE \E ls \in Batches : Post(ls))
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* The declarative reading of the history *)

RowOk(i, r) == Routed(Schemas[i], r) => Valid(Schemas[i], r)
\* the first store that rejects r, or 0
Rejects(r) == LET is == {i \in DOMAIN Schemas : ~RowOk(i, r)}
              IN  IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i <= j
LineBad(ln) == ~ln.ok \/ Rejects(ln.row) # 0
\* the number of lines of a batch that are applied in full
Full(ls) == LET is == {i \in DOMAIN ls : LineBad(ls[i])}
            IN  IF is = {} THEN Len(ls) ELSE (CHOOSE i \in is : \A j \in is : i <= j) - 1
\* the observations batch b adds to store i: the full lines, and the rejected one if a later store rejects it
AddedTo(i, ls) ==
  LET n == Full(ls)
  IN  {<<j, ls[j].row>> : j \in 1..n}
      \cup (IF n < Len(ls) /\ ls[n + 1].ok /\ Rejects(ls[n + 1].row) > i THEN {<<n + 1, ls[n + 1].row>>} ELSE {})
\* all observations of record k of store i, as <<request, line, row>>
Obs(i, k) == {<<q, x[1], x[2]>> : <<q, x>> \in
                {<<q, x>> \in UNION {{<<q, x>> : x \in AddedTo(i, hist[q].lines)} : q \in DOMAIN hist} :
                    Routed(Schemas[i], x[2]) /\ Route(Schemas[i], x[2]) = k}}
AllKeys(i) == {Route(Schemas[i], x[2]) : x \in {x \in UNION {AddedTo(i, hist[q].lines) : q \in DOMAIN hist} :
                                              Routed(Schemas[i], x[2])}}

\* the samples of field f
Samples(i, k, f) == {o \in Obs(i, k) : Find(o[3], f) # 0}
Val(o, f) == Numbers[o[3][Find(o[3], f)].v]
RECURSIVE SumOver(_, _)
SumOver(os, f) == IF os = {} THEN "0" ELSE LET o == CHOOSE o \in os : TRUE IN RAdd(Val(o, f).v, SumOver(os \ {o}, f))

RecordsExact ==
  \A i \in DOMAIN Schemas :
    /\ DOMAIN sts[i].recs = AllKeys(i)
    /\ \A k \in AllKeys(i) :
         LET rec == sts[i].recs[k] IN
         /\ rec.n = Cardinality(Obs(i, k))
         /\ \A f \in NumFields(Schemas[i]) :
              LET os == Samples(i, k, f)
                  nums == {o \in os : Val(o, f).k = "num"}
              IN  /\ rec.stat[f].n = Cardinality(os)
                  /\ (os = nums => rec.stat[f].sum = SumOver(os, f))
                  /\ (nums = {} <=> rec.stat[f].max = None)
                  /\ (nums # {} => /\ \E o \in nums : Val(o, f) = rec.stat[f].max
                                   /\ \E o \in nums : Val(o, f) = rec.stat[f].min
                                   /\ \A o \in nums : RLe(Val(o, f).v, rec.stat[f].max.v) /\ RLe(rec.stat[f].min.v, Val(o, f).v))
         /\ \A f \in DiscFields(Schemas[i]) : rec.disc[f] = {o[3][Find(o[3], f)].v : o \in Samples(i, k, f)}

Outcomes == \A q \in DOMAIN hist : hist[q].ok <=> Full(hist[q].lines) = Len(hist[q].lines)

\* a later request never undoes anything
Monotone == [][\A i \in DOMAIN sts : \A k \in DOMAIN sts[i].recs :
                 k \in DOMAIN sts'[i].recs /\ sts[i].recs[k].n <= sts'[i].recs[k].n]_vars

\* print complete histories (simulation)
Emitted == Emit /\ Len(hist) = MaxOps => PrintT("HIST " \o ToJson(hist))
=============================================================================
