----------------------------- MODULE StoreTrace -----------------------------
(* Checks recorded histories of concurrent calls of the real record store. *)
EXTENDS StoreHistory, TLC, Json, IOUtils

Data   == JsonDeserialize(IOEnv.TRACES)
Traces == Data.traces

VARIABLES t, l, h, low
vars == <<t, l, h, low>>

Cfg == Traces[t].cfg
Ev  == Traces[t].ev[l]

Init == /\ t \in DOMAIN Traces
        /\ l = 1
        /\ h = NoHistory({Traces[t].cfg.keys[i] : i \in DOMAIN Traces[t].cfg.keys})
        /\ low = <<>>

Call   == /\ Ev.e = "inv"
          /\ h' = Begin(h, Ev.k, Ev.op, Ev.id, Ev.fail)
          /\ low' = (Ev.o :> Low(h, Ev.k)) @@ low
Return == /\ Ev.e = "ret"
          /\ low' = low
          /\ IF Ev.op = "get"
             THEN /\ GetOk(h, Ev.k, low[Ev.o], Ev.found, Ev.log)
                  /\ h' = GetEnd(h, Ev.k, Ev.found, Ev.log)
             ELSE /\ UpdateOk(h, Cfg.size, Ev.k, low[Ev.o], Ev.id, Ev.fail, Ev.res, Ev.calls)
                  /\ h' = UpdateEnd(h, Ev.k, Ev.id, Ev.res, Ev.calls)

Step == /\ l <= Len(Traces[t].ev)
        /\ Call \/ Return                 \* no step for a panic or a call that does not return
        /\ l' = l + 1
        /\ t' = t
Done == l > Len(Traces[t].ev) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
