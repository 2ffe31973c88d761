------------------------------- MODULE SeqLock ------------------------------
(***************************************************************************)
(* The algorithm of the sequence lock (internal/seqlock), one step per     *)
(* operation on shared memory, the data in two halves.  Whatever the       *)
(* interleaving, the calls must form a history LockHistory allows.         *)
(***************************************************************************)
EXTENDS LockHistory, TLC, Json

CONSTANTS Procs, Family, Variant, Emit

P == [op |-> "put", fail |-> FALSE]
U == [op |-> "upd", fail |-> FALSE]
F == [op |-> "upd", fail |-> TRUE]
G == [op |-> "get", fail |-> FALSE]
Programs ==
  CASE Family = "mixed" -> {<< <<P, G>>, <<U, G>>, <<F, G>> >>}
    [] Family = "updates" -> {<< <<U, U>>, <<U>>, <<G, G>> >>}
    [] Family = "puts" -> {<< <<P, P>>, <<U, P>>, <<G, G>> >>}
    [] Family = "pairs" -> {<<a, b>> : a, b \in [1..2 -> {P, U, F, G}]}
    [] Family = "random" -> {[p \in Procs |-> [j \in 1 .. RandomElement(1..3) |-> RandomElement({P, U, F, G})]]}

VARIABLES prog, data, seq, mu, pc, at, s1, local, saw, calls, poss, sched
vars == <<prog, data, seq, mu, pc, at, s1, local, saw, calls, poss, sched>>

Whole(b) == IF b[1] = b[2] THEN b[1] ELSE -1

Init == /\ prog \in Programs
        /\ data = <<0, 0>> /\ seq = 0 /\ mu = 0
        /\ pc = [p \in Procs |-> "idle"] /\ at = [p \in Procs |-> 0] /\ s1 = [p \in Procs |-> 0]
        /\ local = [p \in Procs |-> <<0, 0>>] /\ saw = [p \in Procs |-> 0]
        /\ calls = <<>>          \* the calls in progress (by process), and those that returned since they began
        /\ poss = {[v |-> 0, lin |-> {}]}
        /\ sched = <<>>

Op(p) == prog[p][at[p]]
Id(p) == 10 * p + at[p]
Go(p, l) == pc' = [pc EXCEPT ![p] = l]

\* The results of calls in progress are not known yet: a get or update with unknown result may take effect at
\* any time as whatever was there, so poss also remembers what it then saw.
Effects(cs, ps) == \* all ways in which calls in progress may take effect
  LET Apply(p, o) == [v |-> Effect(cs[o], p.v), lin |-> p.lin \cup {<<o, p.v>>}]
      Todo(p) == {o \in DOMAIN cs : ~\E e \in p.lin : e[1] = o}
      RECURSIVE Grow(_)
      Grow(ps2) == LET more == UNION {{Apply(p, o) : o \in Todo(p)} : p \in ps2} \cup ps2
                   IN  IF more = ps2 THEN ps2 ELSE Grow(more)
  IN  Grow(ps)

Call(p) == /\ pc[p] = "idle" /\ at[p] < Len(prog[p])
           /\ at' = [at EXCEPT ![p] = @ + 1]
           /\ LET o == prog[p][at[p] + 1]
              IN  /\ calls' = (p :> [op |-> o.op, fail |-> o.fail, id |-> 10 * p + at[p] + 1]) @@ calls
                  /\ Go(p, IF o.op = "get" THEN "seq1" ELSE "lock")
           /\ UNCHANGED <<prog, data, seq, mu, s1, local, saw, poss>>
\* call p returns having seen v (a put sees nothing)
Return(p, v) ==
  /\ poss' = {[q EXCEPT !.lin = {e \in @ : e[1] # p}] :
                q \in {q \in Effects(calls, poss) : \E e \in q.lin : e[1] = p /\ (Op(p).op = "put" \/ e[2] = v)}}
  /\ calls' = [o \in DOMAIN calls \ {p} |-> calls[o]]
  /\ Go(p, "idle")

Lock(p) ==
  /\ pc[p] = "lock" /\ (mu = 0 \/ Variant = "no mutex")
  /\ mu' = p /\ Go(p, "odd")
  /\ UNCHANGED <<prog, data, seq, at, s1, local, saw, calls, poss>>
Odd(p) ==
  /\ pc[p] = "odd"
  /\ seq' = IF Variant = "no sequence" THEN seq ELSE seq + 1
  /\ Go(p, IF Op(p).op = "put" THEN "write1" ELSE "copy")
  /\ local' = IF Op(p).op = "put" THEN [local EXCEPT ![p] = <<Id(p), Id(p)>>] ELSE local
  /\ UNCHANGED <<prog, data, mu, at, s1, saw, calls, poss>>
Copy(p) ==
  /\ pc[p] = "copy"
  /\ local' = [local EXCEPT ![p][1] = data[1]]
  /\ Go(p, "copy2")
  /\ UNCHANGED <<prog, data, seq, mu, at, s1, saw, calls, poss>>
Copy2(p) ==
  /\ pc[p] = "copy2"
  /\ saw' = [saw EXCEPT ![p] = Whole(<<local[p][1], data[2]>>)]
  /\ local' = [local EXCEPT ![p] = <<Id(p), Id(p)>>]
  /\ Go(p, IF Op(p).fail /\ Variant # "in place" THEN "even" ELSE "write1")
  /\ UNCHANGED <<prog, data, seq, mu, at, s1, calls, poss>>
Write1(p) ==
  /\ pc[p] = "write1"
  /\ data' = [data EXCEPT ![1] = local[p][1]]
  /\ Go(p, "write2")
  /\ UNCHANGED <<prog, seq, mu, at, s1, local, saw, calls, poss>>
Write2(p) ==
  /\ pc[p] = "write2"
  /\ data' = [data EXCEPT ![2] = local[p][2]]
  /\ Go(p, "even")
  /\ UNCHANGED <<prog, seq, mu, at, s1, local, saw, calls, poss>>
Even(p) ==
  /\ pc[p] = "even"
  /\ seq' = IF Variant = "no sequence" THEN seq ELSE seq + 1
  /\ Go(p, "unlock")
  /\ UNCHANGED <<prog, data, mu, at, s1, local, saw, calls, poss>>
Unlock(p) ==
  /\ pc[p] = "unlock"
  /\ mu' = IF Variant = "forgotten unlock" /\ Op(p).fail THEN mu ELSE 0
  /\ Return(p, saw[p])
  /\ UNCHANGED <<prog, data, seq, at, s1, local, saw>>
Seq1(p) ==
  /\ pc[p] = "seq1" /\ (seq % 2 = 0 \/ Variant = "odd accepted")
  /\ s1' = [s1 EXCEPT ![p] = seq] /\ Go(p, "read1")
  /\ UNCHANGED <<prog, data, seq, mu, at, local, saw, calls, poss>>
Read1(p) ==
  /\ pc[p] = "read1"
  /\ local' = [local EXCEPT ![p][1] = data[1]] /\ Go(p, "read2")
  /\ UNCHANGED <<prog, data, seq, mu, at, s1, saw, calls, poss>>
Read2(p) ==
  /\ pc[p] = "read2"
  /\ local' = [local EXCEPT ![p][2] = data[2]] /\ Go(p, "seq2")
  /\ UNCHANGED <<prog, data, seq, mu, at, s1, saw, calls, poss>>
Seq2(p) ==
  /\ pc[p] = "seq2"
  /\ IF seq = s1[p] \/ Variant = "no second look" THEN Return(p, Whole(local[p]))
     ELSE Go(p, "seq1") /\ UNCHANGED <<calls, poss>>
  /\ UNCHANGED <<prog, data, seq, mu, at, s1, local, saw>>

Step(p) == /\ \/ Call(p) \/ Lock(p) \/ Odd(p) \/ Copy(p) \/ Copy2(p) \/ Write1(p) \/ Write2(p) \/ Even(p) \/ Unlock(p)
              \/ Seq1(p) \/ Read1(p) \/ Read2(p) \/ Seq2(p)
           /\ sched' = IF Emit THEN Append(sched, p) ELSE sched
Finished == \A p \in Procs : pc[p] = "idle" /\ at[p] = Len(prog[p])
End  == Finished /\ UNCHANGED vars
Next == (\E p \in Procs : Step(p)) \/ End
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ \A p \in Procs : WF_vars(Step(p))

Linearizable == poss # {}
Warned == seq % 2 = 0 => data[1] = data[2]
Locked == seq % 2 = 1 => mu # 0
Finishes == <>Finished

Emitted == (Emit /\ Finished) => PrintT("RUN " \o ToJson([prog |-> prog, sched |-> sched]))
=============================================================================
