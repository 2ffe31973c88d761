------------------------------- MODULE BufMap -------------------------------
(***************************************************************************)
(* The algorithm of the record store (internal/bufmap), one step per       *)
(* operation on shared memory: claiming a slot by compare-and-swap along   *)
(* the probe sequence, the slot's mutex, the sequence number around the    *)
(* copying of the buffer (in two halves, so that a torn read is visible),  *)
(* and the flag that says the buffer has been written.  Whatever the       *)
(* interleaving, the calls must form a history StoreHistory allows.        *)
(* Variant names a mistake to make on purpose, to show that it is found.   *)
(***************************************************************************)
EXTENDS StoreHistory, TLC

CONSTANTS Procs,    \* 1..n
          Size,     \* number of slots
          Hops,     \* maxReprobe
          Programs, \* set of functions from Procs to sequences of calls [op, k, fail]
          Variant,  \* "none", or a mistake
          Emit      \* record the schedule

Keys == {"1", "2", "3", "4", "5"}
KeyNum(k) == CASE k = "1" -> 1 [] k = "2" -> 2 [] k = "3" -> 3 [] k = "4" -> 4 [] OTHER -> 5

VARIABLES prog, key, seq, set, mu, buf,           \* shared memory, by slot
          pc, at, i, x, s1, local, told, saw,     \* by process
          h, low, bad, sched, nx
vars == <<prog, key, seq, set, mu, buf, pc, at, i, x, s1, local, told, saw, h, low, bad, sched, nx>>

Slots == 0 .. Size - 1
Torn  == <<-1>>
Whole(b) == IF b[1] = b[2] THEN b[1] ELSE Torn

Init == /\ prog \in Programs
        /\ key = [s \in Slots |-> "0"] /\ seq = [s \in Slots |-> 0] /\ set = [s \in Slots |-> FALSE]
        /\ mu = [s \in Slots |-> 0] /\ buf = [s \in Slots |-> << <<>>, <<>> >>]
        /\ pc = [p \in Procs |-> "idle"] /\ at = [p \in Procs |-> 0] /\ i = [p \in Procs |-> 0]
        /\ x = [p \in Procs |-> 0] /\ s1 = [p \in Procs |-> 0] /\ local = [p \in Procs |-> << <<>>, <<>> >>]
        /\ told = [p \in Procs |-> FALSE] /\ saw = [p \in Procs |-> <<>>]
        /\ h = NoHistory(Keys) /\ low = [p \in Procs |-> 0] /\ bad = FALSE /\ sched = <<>> /\ nx = [p \in Procs |-> FALSE]

Op(p)   == prog[p][at[p]]
K(p)    == Op(p).k
Id(p)   == 10 * p + at[p]
Go(p, l) == pc' = [pc EXCEPT ![p] = l]
Pos(p)  == (KeyNum(K(p)) + i[p]) % Size

\* --- calls and returns
Call(p) == /\ pc[p] = "idle" /\ at[p] < Len(prog[p])
           /\ at' = [at EXCEPT ![p] = @ + 1]
           /\ i' = [i EXCEPT ![p] = 0]
           /\ LET o == prog[p][at[p] + 1]
              IN  /\ h' = Begin(h, o.k, o.op, 10 * p + at[p] + 1, o.fail)
                  /\ low' = [low EXCEPT ![p] = Low(h, o.k)]
           /\ Go(p, "probe")
           /\ UNCHANGED <<prog, key, seq, set, mu, buf, x, s1, local, told, saw, bad, nx>>

ReturnGet(p, found, g) ==
  /\ bad' = (bad \/ ~GetOk(h, K(p), low[p], found, g))
  /\ h' = GetEnd(h, K(p), found, g)
ReturnUpd(p, res, calls) ==
  /\ bad' = (bad \/ ~UpdateOk(h, Size, K(p), low[p], Id(p), Op(p).fail, res, calls))
  /\ h' = UpdateEnd(h, K(p), Id(p), res, calls)
Fn(p) == <<[init |-> told[p], log |-> saw[p]]>>

\* --- finding the slot
Probe(p) ==
  /\ pc[p] = "probe"
  /\ x' = [x EXCEPT ![p] = Pos(p)]
  /\ IF Op(p).op = "get"
     THEN IF key[Pos(p)] = K(p) THEN Go(p, "isset") /\ UNCHANGED <<i, h, bad>>
          ELSE IF i[p] < Hops THEN i' = [i EXCEPT ![p] = @ + 1] /\ UNCHANGED <<pc, h, bad>>
          ELSE ReturnGet(p, FALSE, <<>>) /\ Go(p, "idle") /\ UNCHANGED i
     ELSE /\ Go(p, CASE key[Pos(p)] = K(p) -> "lock" [] key[Pos(p)] = "0" -> "cas" [] OTHER -> "recheck")
          /\ UNCHANGED <<i, h, bad>>
  /\ nx' = [nx EXCEPT ![p] = FALSE]
  /\ UNCHANGED <<prog, key, seq, set, mu, buf, at, s1, local, told, saw, low>>

Cas(p) ==
  /\ pc[p] = "cas"
  /\ IF key[x[p]] = "0" THEN key' = [key EXCEPT ![x[p]] = K(p)] /\ Go(p, "lock") /\ nx' = [nx EXCEPT ![p] = TRUE]
     ELSE key' = (IF Variant = "blind claim" THEN [key EXCEPT ![x[p]] = K(p)] ELSE key)
          /\ Go(p, IF Variant = "blind claim" THEN "lock" ELSE "recheck") /\ nx' = nx
  /\ UNCHANGED <<prog, seq, set, mu, buf, at, i, x, s1, local, told, saw, h, low, bad>>

Recheck(p) ==
  /\ pc[p] = "recheck"
  /\ IF key[x[p]] = K(p) /\ Variant # "no recheck" THEN Go(p, "lock") /\ UNCHANGED <<i, h, bad>>
     ELSE IF i[p] < Hops THEN i' = [i EXCEPT ![p] = @ + 1] /\ Go(p, "probe") /\ UNCHANGED <<h, bad>>
     ELSE ReturnUpd(p, "out", <<>>) /\ Go(p, "idle") /\ UNCHANGED i
  /\ UNCHANGED <<prog, key, seq, set, mu, buf, at, x, s1, local, told, saw, low, nx>>

\* --- updating
Lock(p) ==
  /\ pc[p] = "lock"
  /\ mu[x[p]] = 0 \/ Variant = "no mutex"
  /\ mu' = [mu EXCEPT ![x[p]] = p]
  /\ told' = [told EXCEPT ![p] = IF Variant = "claimer initialises" THEN nx[p] ELSE ~set[x[p]]]
  /\ Go(p, "copy1")
  /\ UNCHANGED <<prog, key, seq, set, buf, at, i, x, s1, local, saw, h, low, bad, nx>>
Copy1(p) ==
  /\ pc[p] = "copy1"
  /\ local' = [local EXCEPT ![p][1] = buf[x[p]][1]]
  /\ Go(p, "copy2")
  /\ UNCHANGED <<prog, key, seq, set, mu, buf, at, i, x, s1, told, saw, h, low, bad, nx>>
Copy2(p) ==
  /\ pc[p] = "copy2"
  /\ LET v == <<local[p][1], buf[x[p]][2]>>
         w == Append(Whole(v), Id(p))
     IN  /\ saw' = [saw EXCEPT ![p] = Whole(v)]
         /\ local' = [local EXCEPT ![p] = <<w, w>>]
  /\ Go(p, IF Op(p).fail /\ Variant # "in place" THEN "unlock" ELSE IF Variant = "no sequence" THEN "write1" ELSE "odd")
  /\ UNCHANGED <<prog, key, seq, set, mu, buf, at, i, x, s1, told, h, low, bad, nx>>
Odd(p) ==
  /\ pc[p] = "odd"
  /\ seq' = [seq EXCEPT ![x[p]] = @ + 1]
  /\ Go(p, "write1")
  /\ UNCHANGED <<prog, key, set, mu, buf, at, i, x, s1, local, told, saw, h, low, bad, nx>>
Write1(p) ==
  /\ pc[p] = "write1"
  /\ buf' = [buf EXCEPT ![x[p]][1] = local[p][1]]
  /\ Go(p, "write2")
  /\ UNCHANGED <<prog, key, seq, set, mu, at, i, x, s1, local, told, saw, h, low, bad, nx>>
Write2(p) ==
  /\ pc[p] = "write2"
  /\ buf' = [buf EXCEPT ![x[p]][2] = local[p][2]]
  /\ Go(p, IF Variant = "no sequence" THEN "set" ELSE "even")
  /\ UNCHANGED <<prog, key, seq, set, mu, at, i, x, s1, local, told, saw, h, low, bad, nx>>
Even(p) ==
  /\ pc[p] = "even"
  /\ seq' = [seq EXCEPT ![x[p]] = @ + 1]
  /\ Go(p, "set")
  /\ UNCHANGED <<prog, key, set, mu, buf, at, i, x, s1, local, told, saw, h, low, bad, nx>>
SetFlag(p) ==
  /\ pc[p] = "set"
  /\ set' = [set EXCEPT ![x[p]] = TRUE]
  /\ Go(p, "unlock")
  /\ UNCHANGED <<prog, key, seq, mu, buf, at, i, x, s1, local, told, saw, h, low, bad, nx>>
Unlock(p) ==
  /\ pc[p] = "unlock"
  /\ mu' = [mu EXCEPT ![x[p]] = 0]
  /\ ReturnUpd(p, IF Op(p).fail THEN "fail" ELSE "ok", Fn(p))
  /\ Go(p, "idle")
  /\ UNCHANGED <<prog, key, seq, set, buf, at, i, x, s1, local, told, saw, low, nx>>

\* --- reading
IsSet(p) ==
  /\ pc[p] = "isset"
  /\ IF set[x[p]] \/ Variant = "no flag" THEN Go(p, "seq1") /\ UNCHANGED <<h, bad>>
     ELSE ReturnGet(p, FALSE, <<>>) /\ Go(p, "idle")
  /\ UNCHANGED <<prog, key, seq, set, mu, buf, at, i, x, s1, local, told, saw, low, nx>>
Seq1(p) ==
  /\ pc[p] = "seq1"
  /\ seq[x[p]] % 2 = 0 \/ Variant = "odd accepted"
  /\ s1' = [s1 EXCEPT ![p] = seq[x[p]]]
  /\ Go(p, "read1")
  /\ UNCHANGED <<prog, key, seq, set, mu, buf, at, i, x, local, told, saw, h, low, bad, nx>>
Read1(p) ==
  /\ pc[p] = "read1"
  /\ local' = [local EXCEPT ![p][1] = buf[x[p]][1]]
  /\ Go(p, "read2")
  /\ UNCHANGED <<prog, key, seq, set, mu, buf, at, i, x, s1, told, saw, h, low, bad, nx>>
Read2(p) ==
  /\ pc[p] = "read2"
  /\ local' = [local EXCEPT ![p][2] = buf[x[p]][2]]
  /\ Go(p, "seq2")
  /\ UNCHANGED <<prog, key, seq, set, mu, buf, at, i, x, s1, told, saw, h, low, bad, nx>>
Seq2(p) ==
  /\ pc[p] = "seq2"
  /\ IF seq[x[p]] = s1[p] \/ Variant = "no second look"
     THEN ReturnGet(p, TRUE, Whole(local[p])) /\ Go(p, "idle")
     ELSE Go(p, "seq1") /\ UNCHANGED <<h, bad>>
  /\ UNCHANGED <<prog, key, seq, set, mu, buf, at, i, x, s1, local, told, saw, low, nx>>

Act(p) == \/ Call(p) \/ Probe(p) \/ Cas(p) \/ Recheck(p) \/ Lock(p) \/ Copy1(p) \/ Copy2(p) \/ Odd(p) \/ Write1(p)
          \/ Write2(p) \/ Even(p) \/ SetFlag(p) \/ Unlock(p) \/ IsSet(p) \/ Seq1(p) \/ Read1(p) \/ Read2(p) \/ Seq2(p)
Step(p) == /\ Act(p)
           /\ sched' = IF Emit THEN Append(sched, p) ELSE sched

Finished == \A p \in Procs : pc[p] = "idle" /\ at[p] = Len(prog[p])
End  == Finished /\ UNCHANGED vars
Next == (\E p \in Procs : Step(p)) \/ End
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ \A p \in Procs : WF_vars(Step(p))
Finishes == <>Finished

\* ---- invariants
Linearizable == ~bad
\* a key never has two slots, and a slot once taken keeps its key
OneSlot == \A a, b \in Slots : a # b /\ key[a] = key[b] => key[a] = "0"
SlotsKept == [][\A s \in Slots : key[s] # "0" => key'[s] = key[s]]_key
\* nothing is written while no one holds the slot, and readers are warned whenever the halves may differ
Warned == \A s \in Slots : seq[s] % 2 = 0 => buf[s][1] = buf[s][2]
Locked == \A s \in Slots : seq[s] % 2 = 1 => mu[s] # 0
\* in the end every key has the log of its successful updates
EndOk == Finished => \A k \in Keys : h[k].ok => \E s \in Slots : key[s] = k /\ set[s] /\ Whole(buf[s]) = h[k].chain

ToRun == [prog |-> prog, sched |-> sched]
=============================================================================
