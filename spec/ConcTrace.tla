------------------------------ MODULE ConcTrace ------------------------------
(***************************************************************************)
(* Checks recorded histories of concurrent requests to the real server     *)
(* (C04, C05).  Each observation of a scenario has its own number and a    *)
(* value of x that lets its presence be read off sum(x); set is the set of *)
(* observations a response reflects, by its sum(x).  Per record, posts and *)
(* queries must form a history SetHistory allows, and every other measure  *)
(* of the response must be that of exactly the observations in set.        *)
(* Observations without x (quiet ones) are told by the count only: it must *)
(* include those answered before the query was made and those earlier      *)
(* queries saw, and no more than have been sent.                           *)
(***************************************************************************)
EXTENDS SetHistory, TLC, Json, IOUtils, Exact

Data   == JsonDeserialize(IOEnv.TRACES)
Traces == Data.traces
NumFn    == [s \in DOMAIN Data.num |-> Data.num[s]]
NumNames == DOMAIN Data.num

INSTANCE Starbow WITH Num <- NumFn, NumTexts <- NumNames

VARIABLES t, l, h, quiet, begun
vars == <<t, l, h, quiet, begun>>

\* stores: schemas; obs[i]: the observation with number i; reqs: the requests
Cfg == Data.cfgs[Traces[t].c]
Ev  == Traces[t].ev[l]
Row(id) == Cfg.obs[id + 1]
Req(r)  == Cfg.reqs[r]

\* The observations of a post that take effect in store i, in order: those of the lines before the first bad one,
\* and that one if only a later store rejects it.
Takes(id, i) == \A j \in 1 .. i : Routed(Cfg.stores[j], Row(id)) => Valid(Cfg.stores[j], Row(id))
Bad(ln) == ~ln.ok \/ ~Takes(ln.id, Len(Cfg.stores))
Full(ls) == LET is == {i \in DOMAIN ls : Bad(ls[i])} IN IF is = {} THEN Len(ls) ELSE (CHOOSE i \in is : \A j \in is : i <= j) - 1
Planned(ls, i) == [k \in 1 .. Full(ls) |-> ls[k].id]
                  \o (IF Full(ls) < Len(ls) /\ ls[Full(ls) + 1].ok /\ Takes(ls[Full(ls) + 1].id, i) THEN <<ls[Full(ls) + 1].id>> ELSE <<>>)
\* of these the ones for the record k of store i
ForRecord(ls, i, k) == SelectSeq(Planned(ls, i), LAMBDA id : Routed(Cfg.stores[i], Row(id)) /\ Route(Cfg.stores[i], Row(id)) = k)

IsQuiet(sch, row) == Find(row, "x") = 0 \/ "x" \notin NumFields(sch)
Loud(ls, x)  == SelectSeq(ForRecord(ls, x[1], x[2]), LAMBDA id : ~IsQuiet(Cfg.stores[x[1]], Row(id)))
Quiet(ls, x) == Len(ForRecord(ls, x[1], x[2])) - Len(Loud(ls, x))
NoQuiet == [sent |-> 0, acked |-> 0, seen |-> 0]
Max(a, b) == IF a > b THEN a ELSE b

Records(c) == UNION {{<<i, Route(c.stores[i], c.obs[n])>> : n \in {n \in DOMAIN c.obs : Routed(c.stores[i], c.obs[n])}} : i \in DOMAIN c.stores}

Init == /\ t \in DOMAIN Traces
        /\ l = 1
        /\ h = [r \in Records(Data.cfgs[Traces[t].c]) |-> NoAdds]
        /\ quiet = [r \in Records(Data.cfgs[Traces[t].c]) |-> NoQuiet]
        /\ begun = <<>>

\* the record a query reads
Target(q) == LET i == CHOOSE i \in DOMAIN Cfg.stores : Cfg.stores[i].name = q.name
             IN  <<i, Route(Cfg.stores[i], q.crit)>>

Call ==
  /\ Ev.e = "inv"
  /\ LET r == Req(Ev.req)
     IN  IF r.op = "post"
         THEN /\ h' = [x \in DOMAIN h |-> [BatchBegin(h[x], Loud(r.lines, x)) EXCEPT !.tried = @ \/ Quiet(r.lines, x) > 0]]
              /\ quiet' = [x \in DOMAIN h |-> [quiet[x] EXCEPT !.sent = @ + Quiet(r.lines, x)]]
              /\ begun' = begun
         ELSE /\ h' = h
              /\ quiet' = quiet
              /\ begun' = (Ev.o :> (IF Target(r) \in DOMAIN h
                                    THEN [low |-> Lower(h[Target(r)]), quiet |-> Max(quiet[Target(r)].acked, quiet[Target(r)].seen),
                                          found |-> h[Target(r)].found \/ h[Target(r)].acked # {} \/ quiet[Target(r)].acked > 0]
                                    ELSE [low |-> {}, quiet |-> 0, found |-> FALSE])) @@ begun

RECURSIVE Folded(_, _, _)
Folded(sch, S, rec) == IF S = {} THEN rec
                       ELSE LET id == CHOOSE id \in S : TRUE IN Folded(sch, S \ {id}, Apply(rec, Row(id)))

RECURSIVE EndAll(_, _)
EndAll(x, ids) == IF ids = <<>> THEN x ELSE EndAll(AddEnd(x, ids[1]), Tail(ids))

Return ==
  /\ Ev.e = "ret"
  /\ begun' = begun
  /\ LET r == Req(Ev.req)
     IN  IF r.op = "post"
         THEN /\ IF Full(r.lines) = Len(r.lines) THEN Ev.status = 200 ELSE Ev.status >= 400
              /\ h' = [x \in DOMAIN h |-> EndAll(h[x], Loud(r.lines, x))]
              /\ quiet' = [x \in DOMAIN h |-> [quiet[x] EXCEPT !.acked = @ + Quiet(r.lines, x)]]
         ELSE LET x   == Target(r)
                  sch == Cfg.stores[x[1]]
                  lo  == begun[Ev.o]
                  S   == {Ev.set[i] : i \in DOMAIN Ev.set}
                  found == Len(Ev.resp) > 0
                  counts == {i \in DOMAIN Ev.resp : Ev.resp[i].m = "count" /\ Ev.resp[i].k = "num"}
                  \* the quiet observations the response reflects; all of them may be if it has no count
                  could == IF counts = {} THEN {0}
                           ELSE {k \in 0 .. quiet[x].sent : Ev.resp[CHOOSE i \in counts : TRUE].v = RInt(k + Cardinality(S))}
                  more  == IF could = {} THEN -1 ELSE CHOOSE k \in could : TRUE
                  want  == SelectSeq(Group(r.sel), LAMBDA y : Defines(sch, y.m, y.f))
              IN  /\ Ev.status = 200
                  /\ Ev.tail
                  /\ Ev.echo = [i \in DOMAIN r.crit |-> r.crit[i].f \o "=" \o r.crit[i].v]
                  /\ IF x \in DOMAIN h
                     THEN /\ ReadOk(h[x], lo.low, lo.found, found, S)
                          /\ h' = [h EXCEPT ![x] = ReadEnd(@, found, S)]
                          /\ (found /\ counts # {}) => more >= lo.quiet
                          /\ quiet' = IF found THEN [quiet EXCEPT ![x].seen = Max(@, more)] ELSE quiet
                     ELSE ~found /\ h' = h /\ quiet' = quiet
                  /\ found =>
                       /\ S # {} \/ more > 0 \/ (counts = {} /\ quiet[x].sent > 0)
                       /\ [i \in DOMAIN Ev.resp |-> <<Ev.resp[i].m, Ev.resp[i].f>>] = [i \in DOMAIN want |-> <<want[i].m, want[i].f>>]
                       /\ LET rec == [Folded(sch, S, NewRec(sch)) EXCEPT !.n = @ + more]    \* more >= 0
                          IN  \A i \in DOMAIN want : ValueOk(sch, rec, want[i], [k |-> Ev.resp[i].k, v |-> Ev.resp[i].v])

Step == /\ l <= Len(Traces[t].ev)
        /\ Call \/ Return
        /\ l' = l + 1
        /\ t' = t
Done == l > Len(Traces[t].ev) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
