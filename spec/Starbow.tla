------------------------------ MODULE Starbow ------------------------------
(***************************************************************************)
(* The Starbow server as a sequential system: a list of collations, each   *)
(* with a schema and a set of records (collation instances), observations  *)
(* that are routed to records and update their measures, and queries that  *)
(* read them.                                                              *)
(*                                                                         *)
(* An observation is a sequence of fields [f |-> name, v |-> text].        *)
(* A schema is                                                             *)
(*   [name     |-> collation name,                                         *)
(*    keys     |-> sequence of field names,                                *)
(*    rows     |-> sequence of record measures ("count"),                  *)
(*    measures |-> sequence of [f |-> field, ms |-> sequence of            *)
(*                    [m |-> measure name, p |-> precision or 0]]]         *)
(*                                                                         *)
(* Structure follows the code: Route is FVList.KeyValue, Apply is          *)
(* Collator.Update under Map.Update, Write is Store.Write, PostLines is    *)
(* the loop of recvObservation, ReadRec is Collator.Read, Read is          *)
(* Store.Read.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Exact, Measures

CONSTANTS
  NumTexts,       \* the texts that denote numbers
  Num             \* function on NumTexts: text |-> [k, v]
                  \* k is "num", "nan", "pinf" or "ninf"; v is the exact value if "num"

----------------------------------------------------------------------------
(* Schemas *)

Numeric == {"sum", "mean", "var", "max", "min"}

Range(s) == {s[i] : i \in DOMAIN s}

\* measures of field f, over all groups of the schema
FieldMeasures(sch, f) ==
  UNION {Range(sch.measures[i].ms) : i \in {i \in DOMAIN sch.measures : sch.measures[i].f = f}}

NumFields(sch)  == {sch.measures[i].f : i \in {i \in DOMAIN sch.measures :
                      \E x \in Range(sch.measures[i].ms) : x.m \in Numeric}}
DiscFields(sch) == {sch.measures[i].f : i \in {i \in DOMAIN sch.measures :
                      \E x \in Range(sch.measures[i].ms) : x.m = "uniquecount"}}

\* Does the collation answer measure m of field f?  A field-level count is accepted in a
\* schema but not implemented (a deviation of the code, see DESIGN.md).
Defines(sch, m, f) ==
  \/ f = "*" /\ m = "count" /\ "count" \in Range(sch.rows)
  \/ m # "count" /\ \E x \in FieldMeasures(sch, f) : x.m = m

\* precision of uniquecount(f): the last group that measures f wins
Precision(sch, f) ==
  LET is == {i \in DOMAIN sch.measures : sch.measures[i].f = f
                /\ \E x \in Range(sch.measures[i].ms) : x.m = "uniquecount"}
      i  == CHOOSE i \in is : \A j \in is : j <= i
      ms == sch.measures[i].ms
      js == {j \in DOMAIN ms : ms[j].m = "uniquecount"}
  IN  ms[CHOOSE j \in js : \A k \in js : k <= j].p

----------------------------------------------------------------------------
(* Records *)

NewRec(sch) == [n    |-> 0,
                stat |-> [f \in NumFields(sch) |-> NoStat],
                disc |-> [f \in DiscFields(sch) |-> {}]]

\* index of the first field named f, or 0
Find(row, f) == LET is == {i \in DOMAIN row : row[i].f = f}
                IN  IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i <= j

Routed(sch, row) == \A i \in DOMAIN sch.keys : Find(row, sch.keys[i]) # 0

\* identity of the record: the tuple of key values
Route(sch, row) == [i \in DOMAIN sch.keys |-> row[Find(row, sch.keys[i])].v]

\* The identity the code uses at this commit: a hash of the concatenation of key names and
\* values, which different tuples can share (known finding of C02).
RECURSIVE Concat(_, _, _)
Concat(sch, row, i) == IF i > Len(sch.keys) THEN ""
                       ELSE sch.keys[i] \o row[Find(row, sch.keys[i])].v \o Concat(sch, row, i + 1)
RouteConcat(sch, row) == <<Concat(sch, row, 1)>>

\* is the observation valid for the collation's numeric fields?
Valid(sch, row) == \A i \in DOMAIN row : row[i].f \in NumFields(sch) => row[i].v \in NumTexts

RECURSIVE AddFields(_, _, _)
AddFields(rec, row, i) ==
  IF i > Len(row) THEN rec
  ELSE LET f  == row[i].f
           r1 == IF f \in DOMAIN rec.stat THEN [rec EXCEPT !.stat[f] = AddSample(@, Num[row[i].v])] ELSE rec
           r2 == IF f \in DOMAIN rec.disc THEN [r1 EXCEPT !.disc[f] = @ \cup {row[i].v}] ELSE r1
       IN  AddFields(r2, row, i + 1)

Apply(rec, row) == AddFields([rec EXCEPT !.n = @ + 1], row, 1)

----------------------------------------------------------------------------
(* Stores: [sch |-> schema, recs |-> function from record identities to records] *)

NewStore(sch) == [sch |-> sch, recs |-> << >>]

Key(st, row, concat) == IF concat THEN RouteConcat(st.sch, row) ELSE Route(st.sch, row)

\* result of writing row to st: the new store and whether the write succeeded
Write(st, row, concat) ==
  IF ~Routed(st.sch, row) THEN [st |-> st, ok |-> TRUE]
  ELSE IF ~Valid(st.sch, row) THEN [st |-> st, ok |-> FALSE]       \* rejected, nothing changes
  ELSE LET k   == Key(st, row, concat)
           old == IF k \in DOMAIN st.recs THEN st.recs[k] ELSE NewRec(st.sch)
           new == Apply(old, row)
       IN  [st |-> [st EXCEPT !.recs = [x \in DOMAIN @ \cup {k} |-> IF x = k THEN new ELSE @[x]]],
            ok |-> TRUE]

\* write row to stores i, i+1, ... stopping at the first that rejects it
RECURSIVE WriteAll(_, _, _, _)
WriteAll(sts, row, i, concat) ==
  IF i > Len(sts) THEN [sts |-> sts, ok |-> TRUE]
  ELSE LET w == Write(sts[i], row, concat)
       IN  IF w.ok THEN WriteAll([sts EXCEPT ![i] = w.st], row, i + 1, concat)
           ELSE [sts |-> sts, ok |-> FALSE]

\* lines is a sequence of [ok |-> parsed?, row |-> observation]
RECURSIVE PostLines(_, _, _, _)
PostLines(sts, lines, i, concat) ==
  IF i > Len(lines) THEN [sts |-> sts, ok |-> TRUE]
  ELSE IF ~lines[i].ok THEN [sts |-> sts, ok |-> FALSE]
  ELSE LET w == WriteAll(sts, lines[i].row, 1, concat)
       IN  IF w.ok THEN PostLines(w.sts, lines, i + 1, concat)
           ELSE [sts |-> w.sts, ok |-> FALSE]

----------------------------------------------------------------------------
(* Queries: sel is a sequence of [m, f], crit of [f, v] *)

\* sel grouped by field in order of first mention
RECURSIVE GroupFrom(_, _)
GroupFrom(sel, done) ==
  LET is == {i \in DOMAIN sel : sel[i].f \notin done}
  IN  IF is = {} THEN << >>
      ELSE LET f == sel[CHOOSE i \in is : \A j \in is : i <= j].f
           IN  SelectSeq(sel, LAMBDA x : x.f = f) \o GroupFrom(sel, done \cup {f})
Group(sel) == GroupFrom(sel, {})

\* the pairs a query on store st answers, and the record it reads; found is FALSE if there is none
Read(st, sel, crit, concat) ==
  IF ~Routed(st.sch, crit) \/ Key(st, crit, concat) \notin DOMAIN st.recs
  THEN [found |-> FALSE, pairs |-> << >>]
  ELSE [found |-> TRUE,
        pairs |-> SelectSeq(Group(sel), LAMBDA x : Defines(st.sch, x.m, x.f)),
        rec   |-> st.recs[Key(st, crit, concat)]]

\* index of the collation called name, or 0
Named(sts, name) == LET is == {i \in DOMAIN sts : sts[i].sch.name = name}
                    IN  IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i <= j

----------------------------------------------------------------------------
(* HTTP requests.  A request is                                             *)
(*   [m |-> method, route |-> "obs", "coll", "none" for a path nothing is   *)
(*    at, "near" for a variant of one, ct |-> class of media type,          *)
(*    nodata |-> form without data, name |-> path below /collation/,        *)
(*    nested |-> does it contain a slash, qok |-> is the query well formed] *)

\* the error codes that describe what is wrong with the request; {} if nothing is
Errors(sts, r) ==
  IF r.route = "none" THEN {404}
  ELSE IF r.route = "near" THEN {301, 302, 307, 308, 404}      \* sent elsewhere
  ELSE IF r.route = "obs"
  THEN (IF r.m # "POST" THEN {405} ELSE {})
       \cup (IF r.ct = "bad" THEN {400} ELSE {})
       \cup (IF r.ct = "other" THEN {415} ELSE {})
       \cup (IF r.ct = "form" /\ r.nodata THEN {400} ELSE {})
  ELSE (IF r.m \notin {"GET", "POST"} THEN {405} ELSE {})
       \cup (IF ~r.qok THEN {400} ELSE {})
       \cup (IF r.name = "" \/ r.nested \/ Named(sts, r.name) = 0 THEN {404} ELSE {})

\* a bare prefix or nested name is not a query, so a missing query is not its error
Refusals(sts, r) == IF r.route = "coll" /\ (r.name = "" \/ r.nested) THEN Errors(sts, r) \ {400} ELSE Errors(sts, r)

----------------------------------------------------------------------------
(* Which results are right *)

ValueOk(sch, rec, x, got) ==
  CASE x.m = "count" -> CountOk(rec.n, got)
    [] x.m = "sum"   -> SumOk(rec.stat[x.f], got)
    [] x.m = "mean"  -> MeanOk(rec.stat[x.f], got)
    [] x.m = "var"   -> VarOk(rec.stat[x.f], got)
    [] x.m = "max"   -> ExtremeOk(rec.stat[x.f].max, got)
    [] x.m = "min"   -> ExtremeOk(rec.stat[x.f].min, got)
    [] x.m = "uniquecount" -> EstimateOk(Precision(sch, x.f), Cardinality(rec.disc[x.f]), got)

=============================================================================
