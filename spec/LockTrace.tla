----------------------------- MODULE LockTrace ------------------------------
(* Checks recorded histories of concurrent calls of the real sequence lock. *)
EXTENDS LockHistory, TLC, Json, IOUtils

Data   == JsonDeserialize(IOEnv.TRACES)
Traces == Data.traces

VARIABLES t, l, poss, pend
vars == <<t, l, poss, pend>>

Ev == Traces[t].ev[l]

Init == /\ t \in DOMAIN Traces
        /\ l = 1
        /\ poss = {[v |-> 0, lin |-> {}]}
        /\ pend = <<>>

\* the event with the result of operation o
Result(o) == LET i == CHOOSE i \in DOMAIN Traces[t].ev : Traces[t].ev[i].e = "ret" /\ Traces[t].ev[i].o = o
             IN  Traces[t].ev[i]
Returns(o) == \E i \in DOMAIN Traces[t].ev : Traces[t].ev[i].e = "ret" /\ Traces[t].ev[i].o = o
SawOf(r) == CASE r.op = "get" -> r.log[1]
              [] r.op = "upd" -> IF r.calls = <<>> THEN -2 ELSE r.calls[Len(r.calls)].log[1]
              [] OTHER -> 0

Call == /\ Ev.e = "inv"
        /\ Returns(Ev.o)
        /\ pend' = (Ev.o :> [op |-> Ev.op, id |-> Ev.id, fail |-> Ev.fail, saw |-> SawOf(Result(Ev.o))]) @@ pend
        /\ poss' = poss
Return == /\ Ev.e = "ret"
          /\ Ev.op = "upd" => Ev.res = (IF Ev.fail THEN "fail" ELSE "ok")
          /\ poss' = After(poss, pend, Ev.o)
          /\ poss' # {}
          /\ pend' = [o \in DOMAIN pend \ {Ev.o} |-> pend[o]]

Step == /\ l <= Len(Traces[t].ev)
        /\ Call \/ Return
        /\ l' = l + 1
        /\ t' = t
Done == l > Len(Traces[t].ev) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
