----------------------------- MODULE StarbowConc -----------------------------
(***************************************************************************)
(* Concurrent requests to a starbow server.  A post takes its lines in     *)
(* order and writes each to the collations in order; each such write, and  *)
(* each read of a query, is one step (that they are is property C06,       *)
(* checked by BufMap).  A record is the set of the observations in it with *)
(* a count; Variant names deliberate mistakes:                             *)
(*   split write   a write reads the record and stores it in two steps     *)
(*   torn read     a query reads the count and the rest in two steps       *)
(*   early answer  a post is answered before its last write                *)
(*   shared line   the buffer that holds the line being written is shared  *)
(*   cached read   a query is answered like an earlier one                 *)
(* Whatever the interleaving, posts and queries of each record form a      *)
(* history SetHistory allows (C04, C05) and nothing is lost at the end.    *)
(***************************************************************************)
EXTENDS SetHistory, TLC, Json

CONSTANTS Procs, Family, Variant, Emit

\* collation 1 has key a, collation 2 keys a and b, collation 3 no keys
Colls == 1..3
\* observations: what a and b are
O(a, b, bad) == [a |-> a, b |-> b, bad |-> bad]
Routed(c, o) == CASE c = 1 -> o.a # "" [] c = 2 -> o.a # "" /\ o.b # "" [] c = 3 -> TRUE
Key(c, o) == CASE c = 1 -> <<1, o.a>> [] c = 2 -> <<2, o.a, o.b>> [] c = 3 -> <<3>>
Values == {"1", "2"}
Recs == {<<1, a>> : a \in Values} \cup {<<2, a, b>> : a, b \in Values} \cup {<<3>>}

P(os) == [op |-> "post", lines |-> os, rec |-> <<3>>]
Q(r)  == [op |-> "query", lines |-> <<>>, rec |-> r]
a1  == O("1", "", FALSE)
a2  == O("2", "", FALSE)
ab  == O("1", "1", FALSE)
no  == O("1", "", TRUE)
RandomReq == IF RandomElement(1..2) = 1 THEN Q(RandomElement(Recs))
             ELSE P([j \in 1 .. RandomElement(1..3) |-> RandomElement([a : Values \cup {""}, b : Values \cup {""}, bad : {FALSE, FALSE, TRUE}])])
Programs ==
  CASE Family = "create"  -> {<< <<P(<<a1>>), Q(<<1, "1">>)>>, <<P(<<a1>>), Q(<<1, "1">>)>>, <<Q(<<1, "1">>), Q(<<1, "1">>)>> >>}
    [] Family = "batch"   -> {<< <<P(<<a1, a2, a1>>)>>, <<P(<<a2, a1>>)>>, <<Q(<<1, "1">>), Q(<<1, "1">>), Q(<<1, "2">>)>> >>}
    [] Family = "routes"  -> {<< <<P(<<ab, a1>>)>>, <<P(<<ab>>), Q(<<2, "1", "1">>)>>, <<Q(<<3>>), Q(<<2, "1", "1">>)>> >>}
    [] Family = "rejects" -> {<< <<P(<<a1, no, a1>>), Q(<<1, "1">>)>>, <<P(<<no>>), P(<<a1>>)>>, <<Q(<<1, "1">>), Q(<<1, "1">>)>> >>}
    [] Family = "pairs"   -> {<<x, y>> : x, y \in [1..2 -> {P(<<a1>>), P(<<a1, ab>>), P(<<ab, no>>), Q(<<1, "1">>), Q(<<2, "1", "1">>), Q(<<3>>)}]}
    [] Family = "random"  -> {[p \in Procs |-> [j \in 1 .. RandomElement(1..3) |-> RandomReq]]}

VARIABLES prog, recs, pc, at, li, co, tmp, shared, h, low, bad, sched
vars == <<prog, recs, pc, at, li, co, tmp, shared, h, low, bad, sched>>

Empty == [n |-> 0, set |-> {}]
Init == /\ prog \in Programs
        /\ recs = [r \in Recs |-> Empty]
        /\ pc = [p \in Procs |-> "idle"] /\ at = [p \in Procs |-> 0] /\ li = [p \in Procs |-> 1] /\ co = [p \in Procs |-> 1]
        /\ tmp = [p \in Procs |-> Empty] /\ shared = 0
        /\ h = [r \in Recs |-> NoAdds] /\ low = [p \in Procs |-> [low |-> {}, found |-> FALSE]] /\ bad = FALSE /\ sched = <<>>

Req(p) == prog[p][at[p]]
\* the observation in line i of process p's request
Id(p, i) == 1000 * p + 100 * at[p] + i
Line(id) == prog[id \div 1000][(id \div 100) % 10].lines[id % 100]

Good(ls) == LET is == {i \in DOMAIN ls : ls[i].bad} IN IF is = {} THEN Len(ls) ELSE (CHOOSE i \in is : \A j \in is : i <= j) - 1
Ids(p, k, r) == LET rq == prog[p][k]
                IN  SelectSeq([i \in 1 .. Good(rq.lines) |-> 1000 * p + 100 * k + i],
                              LAMBDA id : Routed(r[1], Line(id)) /\ Key(r[1], Line(id)) = r)

Go(p, l) == pc' = [pc EXCEPT ![p] = l]
Call(p) ==
  /\ pc[p] = "idle" /\ at[p] < Len(prog[p])
  /\ at' = [at EXCEPT ![p] = @ + 1]
  /\ li' = [li EXCEPT ![p] = 1] /\ co' = [co EXCEPT ![p] = 1]
  /\ LET rq == prog[p][at[p] + 1]
     IN  IF rq.op = "post"
         THEN /\ h' = [r \in Recs |-> BatchBegin(h[r], Ids(p, at[p] + 1, r))]
              /\ low' = low
              /\ Go(p, "line")
         ELSE /\ h' = h
              /\ low' = [low EXCEPT ![p] = [low |-> Lower(h[rq.rec]), found |-> h[rq.rec].found \/ h[rq.rec].acked # {}]]
              /\ Go(p, "read")
  /\ UNCHANGED <<prog, recs, tmp, shared, bad>>

RECURSIVE EndAll(_, _)
EndAll(x, ids) == IF ids = <<>> THEN x ELSE EndAll(AddEnd(x, ids[1]), Tail(ids))
Answer(p) == h' = [r \in Recs |-> EndAll(h[r], Ids(p, at[p], r))]

\* take the next line
NextLine(p) ==
  /\ pc[p] = "line"
  /\ IF li[p] > Good(Req(p).lines) THEN Answer(p) /\ Go(p, "idle") /\ UNCHANGED shared
     ELSE Go(p, "write") /\ h' = h /\ shared' = IF Variant = "shared line" THEN Id(p, li[p]) ELSE shared
  /\ UNCHANGED <<prog, recs, at, li, co, tmp, low, bad>>

Advance(p) == IF co[p] = 3 THEN li' = [li EXCEPT ![p] = @ + 1] /\ co' = [co EXCEPT ![p] = 1] /\ Go(p, "line")
              ELSE co' = [co EXCEPT ![p] = @ + 1] /\ li' = li /\ Go(p, "write")
Written(p) == IF Variant = "shared line" THEN shared ELSE Id(p, li[p])
With(rec, id) == [n |-> rec.n + 1, set |-> rec.set \cup {id}]
WriteOne(p) ==
  /\ pc[p] = "write"
  /\ LET id == Written(p)
         o  == Line(id)
         c  == co[p]
     IN  IF ~Routed(c, o) THEN Advance(p) /\ UNCHANGED <<recs, tmp, h>>
         ELSE IF Variant = "split write" THEN tmp' = [tmp EXCEPT ![p] = recs[Key(c, o)]] /\ Go(p, "store") /\ UNCHANGED <<recs, li, co, h>>
         ELSE /\ recs' = [recs EXCEPT ![Key(c, o)] = With(@, id)]
              /\ tmp' = tmp
              /\ Advance(p)
              /\ IF Variant = "early answer" THEN Answer(p) ELSE h' = h
  /\ UNCHANGED <<prog, at, shared, low, bad>>
StoreOne(p) ==
  /\ pc[p] = "store"
  /\ LET id == Written(p) IN recs' = [recs EXCEPT ![Key(co[p], Line(id))] = With(tmp[p], id)]
  /\ Advance(p)
  /\ UNCHANGED <<prog, at, tmp, shared, h, low, bad>>

Deliver(p, rec) ==
  LET r == Req(p).rec
  IN  /\ bad' = (bad \/ rec.n # Cardinality(rec.set) \/ ~ReadOk(h[r], low[p].low, low[p].found, rec.n > 0, rec.set))
      /\ h' = [h EXCEPT ![r] = ReadEnd(@, rec.n > 0, rec.set)]
ReadOne(p) ==
  /\ pc[p] = "read"
  /\ IF Variant = "torn read" THEN tmp' = [tmp EXCEPT ![p] = recs[Req(p).rec]] /\ Go(p, "rest") /\ UNCHANGED <<h, bad>>
     ELSE IF Variant = "cached read" /\ h[Req(p).rec].seen # {}
          THEN LET s == CHOOSE s \in h[Req(p).rec].seen : TRUE
               IN  Deliver(p, [n |-> Cardinality(s), set |-> s]) /\ Go(p, "idle") /\ tmp' = tmp
     ELSE Deliver(p, recs[Req(p).rec]) /\ Go(p, "idle") /\ tmp' = tmp
  /\ UNCHANGED <<prog, recs, at, li, co, shared, low>>
ReadRest(p) ==
  /\ pc[p] = "rest"
  /\ Deliver(p, [n |-> tmp[p].n, set |-> recs[Req(p).rec].set])
  /\ Go(p, "idle")
  /\ UNCHANGED <<prog, recs, at, li, co, tmp, shared, low>>

Step(p) == /\ Call(p) \/ NextLine(p) \/ WriteOne(p) \/ StoreOne(p) \/ ReadOne(p) \/ ReadRest(p)
           /\ sched' = IF Emit THEN Append(sched, p) ELSE sched
Finished == \A p \in Procs : pc[p] = "idle" /\ at[p] = Len(prog[p])
End  == Finished /\ UNCHANGED vars
Next == (\E p \in Procs : Step(p)) \/ End
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ \A p \in Procs : WF_vars(Step(p))

Consistent == ~bad
ExactlyOnce == Finished => \A r \in Recs : recs[r].set = h[r].acked /\ recs[r].n = Cardinality(h[r].acked)
Apart == \A r \in Recs : \A id \in recs[r].set : Routed(r[1], Line(id)) /\ Key(r[1], Line(id)) = r
Grow == [][\A r \in Recs : recs[r].set \subseteq recs'[r].set]_recs
Finishes == <>Finished
Emitted == (Emit /\ Finished) => PrintT("RUN " \o ToJson([prog |-> prog, sched |-> sched]))
=============================================================================
