------------------------------- MODULE IncMap -------------------------------
(***************************************************************************)
(* The algorithm of the counter map (internal/incmap), one step per atomic *)
(* operation.  A total is kept as the bag of the increments in it.         *)
(* Whatever the interleaving, the calls must form, per key, a history      *)
(* SetHistory allows.                                                      *)
(***************************************************************************)
EXTENDS SetHistory, TLC, Json

CONSTANTS Procs, Size, Hops, Family, Variant, Emit

Keys == {"1", "2", "3", "4", "5"}
KeyNum(k) == CASE k = "1" -> 1 [] k = "2" -> 2 [] k = "3" -> 3 [] k = "4" -> 4 [] OTHER -> 5

I(k) == [op |-> "inc", k |-> k]
G(k) == [op |-> "get", k |-> k]
\* keys "1", "3", "5" collide in a table of two slots
Programs ==
  CASE Family = "create" -> {<< <<I("1"), G("1")>>, <<I("1"), G("1")>>, <<I("1"), G("1")>> >>}
    [] Family = "collide" -> {<< <<I("1"), G("3"), G("1")>>, <<I("3"), G("1")>>, <<I("1"), G("3")>> >>}
    [] Family = "full" -> {<< <<I("1"), G("5")>>, <<I("3"), G("1")>>, <<I("5"), G("3")>> >>}
    [] Family = "pairs" -> {<<a, b>> : a, b \in [1..2 -> {I("1"), I("3"), G("1"), G("3")}]}
    [] Family = "long pairs" -> {<<a, b>> : a, b \in [1..3 -> {I("1"), I("3"), G("1"), G("3")}]}
    [] Family = "random" -> {[p \in Procs |-> [j \in 1 .. RandomElement(1..3) |-> RandomElement([op : {"inc", "get"}, k : {"1", "2", "3", "5"}])]]}

VARIABLES prog, key, val, pc, at, i, x, tmp, h, low, bad, sched
vars == <<prog, key, val, pc, at, i, x, tmp, h, low, bad, sched>>
Slots == 0 .. Size - 1

Init == /\ prog \in Programs
        /\ key = [s \in Slots |-> "0"] /\ val = [s \in Slots |-> {}]
        /\ pc = [p \in Procs |-> "idle"] /\ at = [p \in Procs |-> 0] /\ i = [p \in Procs |-> 0] /\ x = [p \in Procs |-> 0]
        /\ tmp = [p \in Procs |-> {}]
        /\ h = [k \in Keys |-> NoAdds] /\ low = [p \in Procs |-> [low |-> {}, found |-> FALSE]] /\ bad = FALSE /\ sched = <<>>

Op(p)  == prog[p][at[p]]
K(p)   == Op(p).k
Id(p)  == 10 * p + at[p]
Go(p, l) == pc' = [pc EXCEPT ![p] = l]
Pos(p) == (KeyNum(K(p)) + i[p]) % Size

Call(p) == /\ pc[p] = "idle" /\ at[p] < Len(prog[p])
           /\ at' = [at EXCEPT ![p] = @ + 1]
           /\ i' = [i EXCEPT ![p] = 0]
           /\ LET o == prog[p][at[p] + 1]
              IN  /\ h' = IF o.op = "inc" THEN [h EXCEPT ![o.k] = AddBegin(@, 10 * p + at[p] + 1)] ELSE h
                  /\ low' = [low EXCEPT ![p] = [low |-> Lower(h[o.k]), found |-> h[o.k].found \/ h[o.k].acked # {}]]
           /\ Go(p, "probe")
           /\ UNCHANGED <<prog, key, val, x, tmp, bad>>
ReturnGet(p, found, S) ==
  /\ bad' = (bad \/ ~ReadOk(h[K(p)], low[p].low, low[p].found, found, S))
  /\ h' = [h EXCEPT ![K(p)] = ReadEnd(@, found, S)]
Probe(p) ==
  /\ pc[p] = "probe"
  /\ x' = [x EXCEPT ![p] = Pos(p)]
  /\ IF Op(p).op = "get"
     THEN IF key[Pos(p)] = K(p) THEN Go(p, "load") /\ UNCHANGED <<i, h, bad>>
          ELSE IF i[p] < Hops THEN i' = [i EXCEPT ![p] = @ + 1] /\ UNCHANGED <<pc, h, bad>>
          ELSE ReturnGet(p, FALSE, {}) /\ Go(p, "idle") /\ UNCHANGED i
     ELSE /\ Go(p, CASE key[Pos(p)] = K(p) -> "add" [] key[Pos(p)] = "0" -> "cas" [] OTHER -> "recheck")
          /\ UNCHANGED <<i, h, bad>>
  /\ UNCHANGED <<prog, key, val, at, tmp, low>>
Cas(p) ==
  /\ pc[p] = "cas"
  /\ IF key[x[p]] = "0" \/ Variant = "blind claim" THEN key' = [key EXCEPT ![x[p]] = K(p)] /\ Go(p, "add")
     ELSE key' = key /\ Go(p, "recheck")
  /\ UNCHANGED <<prog, val, at, i, x, tmp, h, low, bad>>
Recheck(p) ==
  /\ pc[p] = "recheck"
  /\ IF key[x[p]] = K(p) /\ Variant # "no recheck" THEN Go(p, "add") /\ UNCHANGED <<i, h, bad>>
     ELSE IF i[p] < Hops THEN i' = [i EXCEPT ![p] = @ + 1] /\ Go(p, "probe") /\ UNCHANGED <<h, bad>>
     ELSE /\ bad' = (bad \/ ~RefuseOk(h[K(p)], Id(p)) \/ low[p].found)
          /\ h' = [h EXCEPT ![K(p)] = RefuseEnd(@, Id(p))]
          /\ Go(p, "idle") /\ UNCHANGED i
  /\ UNCHANGED <<prog, key, val, at, x, tmp, low>>
Add(p) ==
  /\ pc[p] = "add"
  /\ IF Variant = "split add"
     THEN tmp' = [tmp EXCEPT ![p] = val[x[p]]] /\ Go(p, "store") /\ UNCHANGED <<val, h>>
     ELSE /\ val' = [val EXCEPT ![x[p]] = @ \cup {Id(p)}]
          /\ h' = [h EXCEPT ![K(p)] = AddEnd(@, Id(p))]
          /\ Go(p, "idle") /\ UNCHANGED tmp
  /\ UNCHANGED <<prog, key, at, i, x, low, bad>>
Store(p) ==
  /\ pc[p] = "store"
  /\ val' = [val EXCEPT ![x[p]] = tmp[p] \cup {Id(p)}]
  /\ h' = [h EXCEPT ![K(p)] = AddEnd(@, Id(p))]
  /\ Go(p, "idle")
  /\ UNCHANGED <<prog, key, at, i, x, tmp, low, bad>>
Load(p) ==
  /\ pc[p] = "load"
  /\ ReturnGet(p, TRUE, val[x[p]])
  /\ Go(p, "idle")
  /\ UNCHANGED <<prog, key, val, at, i, x, tmp, low>>

Step(p) == /\ Call(p) \/ Probe(p) \/ Cas(p) \/ Recheck(p) \/ Add(p) \/ Store(p) \/ Load(p)
           /\ sched' = IF Emit THEN Append(sched, p) ELSE sched
Finished == \A p \in Procs : pc[p] = "idle" /\ at[p] = Len(prog[p])
End  == Finished /\ UNCHANGED vars
Next == (\E p \in Procs : Step(p)) \/ End
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ \A p \in Procs : WF_vars(Step(p))

Linearizable == ~bad
OneSlot == \A a, b \in Slots : a # b /\ key[a] = key[b] => key[a] = "0"
SlotsKept == [][\A s \in Slots : key[s] # "0" => key'[s] = key[s]]_key
TotalsGrow == [][\A s \in Slots : val[s] \subseteq val'[s]]_val
EndOk == Finished => \A k \in Keys : h[k].acked # {} => \E s \in Slots : key[s] = k /\ val[s] = h[k].acked
Finishes == <>Finished

Emitted == (Emit /\ Finished) => PrintT("RUN " \o ToJson([prog |-> prog, sched |-> sched]))
=============================================================================
