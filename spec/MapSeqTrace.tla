---------------------------- MODULE MapSeqTrace -----------------------------
(***************************************************************************)
(* Checks recorded sequential histories of the real record store and       *)
(* counter map (C07, C15): the value of every key exactly, and which calls *)
(* may be refused.  Keys are assigned to slots by linear probing: key k    *)
(* takes the first of the slots k % l, k % l + 1, ... (at most 11, around  *)
(* the end of the table) that is its own or free, and no other key's       *)
(* arrival changes that.                                                   *)
(***************************************************************************)
EXTENDS Exact, Sequences, FiniteSets, TLC, Json, IOUtils

Data   == JsonDeserialize(IOEnv.TRACES)
Traces == Data.traces

VARIABLES t, l, val, slots, sure
vars == <<t, l, val, slots, sure>>

Cfg == Traces[t].cfg
Ev  == Traces[t].ev[l]
Home(k) == Cfg.home[k]

Init == /\ t \in DOMAIN Traces
        /\ l = 1
        /\ val = <<>>
        /\ slots = [i \in 0 .. Traces[t].cfg.size - 1 |-> "0"]
        /\ sure = TRUE                            \* slots is known to be right

Probe(k, i) == (Home(k) + i) % Cfg.size
Fits(k, i)  == slots[Probe(k, i)] \in {"0", k}
HasRoom(k)  == \E i \in 0 .. 10 : Fits(k, i)
Place(k)    == Probe(k, CHOOSE i \in 0 .. 10 : Fits(k, i) /\ \A j \in 0 .. i - 1 : ~Fits(k, j))

RefusalOk(k) == k \notin DOMAIN val /\ (sure => ~HasRoom(k))
Taken(k) == /\ slots' = IF HasRoom(k) THEN [slots EXCEPT ![Place(k)] = k] ELSE slots
            /\ sure' = (sure /\ HasRoom(k))

Set(k, v) == val' = (k :> v) @@ val
Two64 == RPow2(64)
Wrap(x) == IF RLt(x, Two64) THEN x ELSE RSub(x, Two64)

Update ==
  LET k == Ev.k
      c == Ev.calls[Len(Ev.calls)]
  IN  IF k = "0" THEN Ev.res = "bad" /\ Ev.calls = <<>> /\ UNCHANGED <<val, slots, sure>>
      ELSE IF Ev.res = "out" THEN RefusalOk(k) /\ Ev.calls = <<>> /\ UNCHANGED <<val, slots, sure>>
      ELSE /\ Ev.res = (IF Ev.fail THEN "fail" ELSE "ok")
           /\ Ev.calls # <<>>
           /\ c.init = (k \notin DOMAIN val)
           /\ Len(c.seen) = 2 * Cfg.s /\ Len(c.wrote) = 2 * Cfg.s
           /\ k \in DOMAIN val => c.seen = val[k]
           /\ Taken(k)
           /\ IF Ev.fail THEN val' = val ELSE Set(k, c.wrote)
Inc ==
  LET k == Ev.k IN
  IF Ev.res = "out"
  THEN (k = "0" \/ RefusalOk(k)) /\ UNCHANGED <<val, slots, sure>>
  ELSE /\ k # "0"
       /\ Taken(k)
       /\ Set(k, Wrap(RAdd(IF k \in DOMAIN val THEN val[k] ELSE "0", Ev.d)))
Get == /\ Ev.found = (Ev.k \in DOMAIN val)
       /\ Ev.found => Ev.val = val[Ev.k]
       /\ UNCHANGED <<val, slots, sure>>

Step == /\ l <= Len(Traces[t].ev)
        /\ CASE Ev.e = "call" /\ Ev.op = "upd" -> Update
             [] Ev.e = "call" /\ Ev.op = "inc" -> Inc
             [] Ev.e = "call" /\ Ev.op = "get" -> Get
             [] OTHER -> FALSE
        /\ l' = l + 1
        /\ t' = t
Done == l > Len(Traces[t].ev) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
