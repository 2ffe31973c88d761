---------------------------- MODULE StoreHistory ----------------------------
(***************************************************************************)
(* What a history of concurrent calls of the record store must look like   *)
(* (C06, C07).  Every update appends its own number to the log in the      *)
(* record, so a value tells which updates it is the result of, in which    *)
(* order.  The history is linearizable exactly if, per key, the logs that  *)
(* calls saw or left extend one another, hold only updates that had begun, *)
(* and never fall behind what had returned when the call began.            *)
(*                                                                         *)
(* h[k] is what is known of key k: the updates begun (inv), the longest    *)
(* log seen (chain), the length of the longest log any finished call has   *)
(* seen or left (done), whether an update has been called (tried) or has   *)
(* succeeded (ok).  Key "0" is the invalid one.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NoHistory(Keys) == [k \in Keys |-> [inv |-> {}, chain |-> <<>>, done |-> 0, tried |-> FALSE, ok |-> FALSE]]

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Longer(a, b)     == IF Len(a) < Len(b) THEN b ELSE a
Values(s)        == {s[i] : i \in DOMAIN s}
Max2(a, b)       == IF a < b THEN b ELSE a

\* a call begins; it must see at least what Low says
Begin(h, k, op, id, fail) ==
  IF op = "upd"
  THEN [h EXCEPT ![k].tried = TRUE, ![k].inv = IF fail THEN @ ELSE @ \cup {id}]
  ELSE h
Low(h, k) == h[k].done

\* log g of key k is possible, for a call that began when low was the length reached
Possible(h, k, low, g) ==
  /\ Len(g) >= low
  /\ Values(g) \subseteq h[k].inv
  /\ Cardinality(Values(g)) = Len(g)
  /\ IsPrefixOf(g, h[k].chain) \/ IsPrefixOf(h[k].chain, g)

Saw(h, k, g) == [h EXCEPT ![k].chain = Longer(@, g), ![k].done = Max2(@, Len(g))]

\* The results a call may have, and what is known after it.

GetOk(h, k, low, found, g) ==
  IF found THEN k # "0" /\ g # <<>> /\ Possible(h, k, low, g) ELSE low = 0
GetEnd(h, k, found, g) == IF found THEN Saw(h, k, g) ELSE h

\* calls: what the update function was called with; only the last call counts
UpdateOk(h, size, k, low, id, fail, res, calls) ==
  LET c == calls[Len(calls)]
      others == {x \in DOMAIN h : x # k /\ x # "0" /\ h[x].tried}
  IN  CASE k = "0" -> res = "bad" /\ calls = <<>>
        [] k # "0" /\ res = "ok"   -> /\ ~fail /\ calls # <<>>
                                      /\ Possible(h, k, low, c.log)
                                      /\ id \notin Values(c.log)
                                      /\ Possible(h, k, low, Append(c.log, id))
                                      /\ c.init = (c.log = <<>>)
        [] k # "0" /\ res = "fail" -> /\ fail /\ calls # <<>>
                                      /\ Possible(h, k, low, c.log)
                                      /\ c.init = (c.log = <<>>)
        [] k # "0" /\ res = "out"  -> \* refused: only a new key, when others may have taken every slot it could use
                                      /\ calls = <<>> /\ low = 0 /\ ~h[k].ok
                                      /\ Cardinality(others) >= (IF size < 11 THEN size ELSE 11)
                                      /\ id \notin Values(h[k].chain)
        [] OTHER -> FALSE
UpdateEnd(h, k, id, res, calls) ==
  LET c == calls[Len(calls)]
  IN  CASE res = "ok"   -> [Saw(h, k, Append(c.log, id)) EXCEPT ![k].ok = TRUE]
        [] res = "fail" -> Saw(h, k, c.log)
        [] res = "out"  -> [h EXCEPT ![k].inv = @ \ {id}]
        [] OTHER -> h
=============================================================================
