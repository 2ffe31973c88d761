---------------------------- MODULE CounterTrace ----------------------------
(* Checks recorded histories of concurrent calls of the real counter map.  *)
EXTENDS SetHistory, TLC, Json, IOUtils

Data   == JsonDeserialize(IOEnv.TRACES)
Traces == Data.traces

VARIABLES t, l, h, low
vars == <<t, l, h, low>>

Cfg == Traces[t].cfg
Ev  == Traces[t].ev[l]

Init == /\ t \in DOMAIN Traces
        /\ l = 1
        /\ h = [k \in {Traces[t].cfg.keys[i] : i \in DOMAIN Traces[t].cfg.keys} |-> NoAdds]
        /\ low = <<>>

Call == /\ Ev.e = "inv"
        /\ h' = IF Ev.op = "inc" THEN [h EXCEPT ![Ev.k] = AddBegin(@, Ev.id)] ELSE h
        /\ low' = (Ev.o :> [low |-> Lower(h[Ev.k]), found |-> h[Ev.k].found \/ h[Ev.k].acked # {}]) @@ low

Return ==
  /\ Ev.e = "ret"
  /\ low' = low
  /\ LET k  == Ev.k
         lo == low[Ev.o]
         S  == {Ev.log[i] : i \in DOMAIN Ev.log}
         others == {x \in DOMAIN h : x # k /\ x # "0" /\ h[x].tried}
     IN  IF Ev.op = "get"
         THEN /\ ~Ev.dup
              /\ k = "0" => ~Ev.found
              /\ ReadOk(h[k], lo.low, lo.found, Ev.found, S)
              /\ h' = [h EXCEPT ![k] = ReadEnd(@, Ev.found, S)]
         ELSE IF Ev.res = "ok"
         THEN /\ k # "0"
              /\ h' = [h EXCEPT ![k] = AddEnd(@, Ev.id)]
         ELSE /\ Ev.res = "out"
              /\ k # "0" => /\ ~lo.found
                            /\ Cardinality(others) >= (IF Cfg.size < 11 THEN Cfg.size ELSE 11)
              /\ RefuseOk(h[k], Ev.id)
              /\ h' = [h EXCEPT ![k] = RefuseEnd(@, Ev.id)]

Step == /\ l <= Len(Traces[t].ev)
        /\ Call \/ Return
        /\ l' = l + 1
        /\ t' = t
Done == l > Len(Traces[t].ev) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
