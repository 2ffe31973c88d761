---------------------------- MODULE StarbowTrace ----------------------------
(***************************************************************************)
(* Checks recorded histories of the real server against Starbow.  Each     *)
(* trace is a history on a fresh server; an event is a request with its    *)
(* response.  poss is the set of states the server can be in: one, except  *)
(* after a cancelled request.  A response no possible state explains       *)
(* leaves no successor, which TLC reports as a deadlock.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Exact, Demo

Data == JsonDeserialize(IOEnv.TRACES)

NumFn    == [s \in DOMAIN Data.num |-> Data.num[s]]
NumNames == DOMAIN Data.num

VARIABLES t, l, poss
vars == <<t, l, poss>>

INSTANCE Starbow WITH Num <- NumFn, NumTexts <- NumNames
L == INSTANCE Lines WITH Chr <- Data.chars

Traces == Data.traces
Cfg == Traces[t].cfg
Ev  == Traces[t].ev[l]

Judged == {Cfg.ms[i] : i \in DOMAIN Cfg.ms}       \* measures whose values this check judges

Stores == IF Cfg.demo THEN DemoStores ELSE Cfg.stores

Init == /\ t \in DOMAIN Traces
        /\ l = 1
        /\ poss = {[i \in DOMAIN Stores |-> NewStore(Stores[i])]}

----------------------------------------------------------------------------

PairsOk(sch, rd, resp) ==
  /\ Len(resp) = Len(rd.pairs)
  /\ \A i \in DOMAIN resp :
       /\ resp[i].m = rd.pairs[i].m /\ resp[i].f = rd.pairs[i].f
       /\ rd.pairs[i].m \in Judged => ValueOk(sch, rd.rec, rd.pairs[i], [k |-> resp[i].k, v |-> resp[i].v])

\* response lines to a query of store i: the criteria (over HTTP only) and the measures
RespOk(sts, i, ev, echo) ==
  LET rd == Read(sts[i], ev.sel, ev.crit, Cfg.concat)
      n  == IF echo THEN Len(ev.crit) ELSE 0
  IN  /\ ev.status = 200
      /\ ev.tail
      /\ Len(ev.resp) >= n
      /\ \A j \in 1..n : ev.resp[j].raw = ev.crit[j].f \o "=" \o ev.crit[j].v
      /\ PairsOk(sts[i].sch, rd, SubSeq(ev.resp, n + 1, Len(ev.resp)))

BodyLines(ev) == IF ev.bytes THEN L!ParseBody(ev.body) ELSE ev.lines

Posted(sts, ev) == LET r == PostLines(sts, BodyLines(ev), 1, Cfg.concat)
                       ok == r.ok /\ ~ev.broken            \* a body that breaks off: its complete lines only
                   IN  IF (ok /\ ev.status = 200) \/ (~ok /\ ev.status >= 400) THEN {r.sts} ELSE {}

Http(sts, ev) ==
  LET errs == Refusals(sts, ev)
  IN  IF ~ev.nc THEN {}
      ELSE IF errs # {} THEN (IF ev.status \in errs THEN {sts} ELSE {})
      ELSE IF ev.route = "obs" THEN Posted(sts, ev)
      ELSE IF RespOk(sts, Named(sts, ev.name), ev, TRUE) THEN {sts} ELSE {}

\* A batch cut short by cancellation: micro-step (line - 1) * (number of stores) + store writes one
\* line to one store; some number of them in ev.lo .. ev.hi has happened.
RECURSIVE Micro(_, _, _, _)
Micro(sts, lines, k, n) ==
  IF k > n THEN sts
  ELSE LET m  == Len(sts)
           li == ((k - 1) \div m) + 1
           si == ((k - 1) % m) + 1
           w  == Write(sts[si], lines[li].row, Cfg.concat)
       IN  Micro([sts EXCEPT ![si] = w.st], lines, k + 1, n)

Cut(sts, ev) == {Micro(sts, ev.lines, 1, n) : n \in ev.lo .. ev.hi}

Direct(sts, ev) ==
  LET w == Write(sts[ev.i], ev.row, Cfg.concat)
      after == [sts EXCEPT ![ev.i] = w.st]
  IN  IF ev.live
      THEN (IF ev.res = (IF w.ok THEN "ok" ELSE "err") THEN {after} ELSE {})
      ELSE \* the context was cancelled before the call: nothing may change
           (IF ev.res = "ctx" \/ (ev.res = "ok" /\ ~Routed(sts[ev.i].sch, ev.row)) THEN {sts} ELSE {})

\* observations with values fam\o"lo" .. fam\o"hi" of field f, n observations in all
Filled(sts, ev) ==
  LET st  == sts[ev.i]
      k   == Key(st, ev.row, Cfg.concat)
      old == IF k \in DOMAIN st.recs THEN st.recs[k] ELSE NewRec(st.sch)
      new == [old EXCEPT !.n = @ + ev.n,
                         !.disc[ev.f] = @ \cup {ev.fam \o ToString(i) : i \in ev.lo .. ev.hi}]
  IN  IF ev.res # "ok" THEN {}
      ELSE {[sts EXCEPT ![ev.i].recs = [x \in DOMAIN @ \cup {k} |-> IF x = k THEN new ELSE @[x]]]}

\* the estimates of records that have not changed since they were read: the squares of their relative errors
\* average to about 1.08 / 2^p; summed over the reads at
RECURSIVE SumOfSquares(_, _, _)
SumOfSquares(sts, at, j) ==
  IF j > Len(at) THEN "0"
  ELSE LET ev  == Traces[t].ev[at[j]]
           st  == sts[ev.i]
           rd  == Read(st, ev.sel, ev.crit, Cfg.concat)
           n   == RInt(Cardinality(rd.rec.disc[ev.sel[1].f]))
           d   == RSub(ev.resp[1].v, n)
       IN  RAdd(RDiv(RMul(RMul(d, d), RInt(2^Precision(st.sch, ev.sel[1].f))), RMul(n, n)), SumOfSquares(sts, at, j + 1))

Spread(sts, ev) == IF RLe(SumOfSquares(sts, ev.at, 1), RMul(ev.bound, RInt(Len(ev.at)))) THEN {sts} ELSE {}

\* statistics with m more samples x, of which there is one already
Repeated(g, x, m) ==
  LET r == RInt(m)
  IN  IF ~g.fin THEN [g EXCEPT !.n = @ + m]
      ELSE [g EXCEPT !.n    = @ + m,
                     !.sum  = RAdd(@, RMul(r, x.v)),
                     !.sabs = RAdd(@, RMul(r, RAbs(x.v))),
                     !.ssq  = IF g.calm THEN RAdd(@, RMul(r, RMul(x.v, x.v))) ELSE @]

\* store st after n >= 1 observations that are the same, valid ones, of fields with different names
ManyOf(st, row, n) ==
  LET w   == Write(st, row, Cfg.concat)
      k   == Key(st, row, Cfg.concat)
      rec == w.st.recs[k]
      m   == n - 1
      new == [rec EXCEPT !.n = @ + m,
                         !.stat = [f \in DOMAIN @ |->
                            LET i == Find(row, f) IN IF i = 0 THEN @[f] ELSE Repeated(@[f], NumFn[row[i].v], m)]]
  IN  IF Routed(st.sch, row) THEN [st EXCEPT !.recs = [w.st.recs EXCEPT ![k] = new]] ELSE st

Many(sts, ev) ==
  IF ev.res = "ok" /\ Routed(sts[ev.i].sch, ev.row) /\ Write(sts[ev.i], ev.row, Cfg.concat).ok
  THEN {[sts EXCEPT ![ev.i] = ManyOf(@, ev.row, ev.n)]} ELSE {}

\* a batch of n lines that are the same
Bulk(sts, ev) ==
  IF ev.status = 200 /\ ev.nc /\ \A i \in DOMAIN sts : Write(sts[i], ev.row, Cfg.concat).ok
  THEN {[i \in DOMAIN sts |-> ManyOf(sts[i], ev.row, ev.n)]} ELSE {}

Successors(sts) ==
  CASE Ev.e = "http"   -> Http(sts, Ev)
    [] Ev.e = "write"  -> Direct(sts, Ev)
    [] Ev.e = "fill"   -> Filled(sts, Ev)
    [] Ev.e = "many"   -> Many(sts, Ev)
    [] Ev.e = "bulk"   -> Bulk(sts, Ev)
    [] Ev.e = "read"   -> IF RespOk(sts, Ev.i, Ev, FALSE) THEN {sts} ELSE {}
    [] Ev.e = "cut"    -> Cut(sts, Ev)
    [] Ev.e = "same"   -> IF Ev.a = Ev.b THEN {sts} ELSE {}            \* two responses that must be identical
    [] Ev.e = "spread" -> Spread(sts, Ev)
    [] Ev.e = "canary" -> IF Ev.res = "ok" THEN {sts} ELSE {}          \* nothing written outside the record
    [] Ev.e = "exit"   -> IF Ev.status = 0 THEN {sts} ELSE {}          \* the program ended as it should
    [] Ev.e = "busy"   -> IF Ev.status # 0 THEN {sts} ELSE {}          \* a program that could not listen
    [] OTHER -> {}                                                     \* panic, hang, crash: never allowed

Step == /\ l <= Len(Traces[t].ev)
        /\ poss' = UNION {Successors(s) : s \in poss}
        /\ poss' # {}
        /\ l' = l + 1
        /\ t' = t

Done == l > Len(Traces[t].ev) /\ UNCHANGED vars

Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
