----------------------------- MODULE SetHistory -----------------------------
(***************************************************************************)
(* What a history of concurrent additions and reads of one total must look *)
(* like when every addition can be told apart in the total: the increments *)
(* of a counter (C15), the observations in a record (C04, C05).  A read    *)
(* returns the set of the additions it reflects.                           *)
(*                                                                         *)
(* inv: additions begun; before[a]: those that were in effect before a     *)
(* began; acked: those that have returned; seen: the sets reads returned;  *)
(* found: whether a read has found the total.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NoAdds == [inv |-> {}, before |-> <<>>, acked |-> {}, seen |-> {}, found |-> FALSE, tried |-> FALSE]

LOCAL Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

\* what every later read must include
Lower(h) == h.acked \cup UNION h.seen

AddBegin(h, a)   == [h EXCEPT !.inv = @ \cup {a}, !.tried = TRUE, !.before = Put(@, a, Lower(h))]
\* several additions made one after the other by one caller
RECURSIVE BatchBegin(_, _)
BatchBegin(h, as) ==
  IF as = <<>> THEN h
  ELSE LET h1 == BatchBegin(h, SubSeq(as, 1, Len(as) - 1))
           a  == as[Len(as)]
       IN  [h1 EXCEPT !.inv = @ \cup {a}, !.tried = TRUE,
                      !.before = Put(@, a, Lower(h) \cup {as[i] : i \in 1 .. Len(as) - 1})]
AddEnd(h, a)     == [h EXCEPT !.acked = @ \cup {a}]
\* refused additions have no effect
RefuseOk(h, a)   == a \notin UNION h.seen
RefuseEnd(h, a)  == [h EXCEPT !.inv = @ \ {a}]

\* low: Lower when the read began; wasFound: h.found then
ReadOk(h, low, wasFound, found, S) ==
  IF ~found THEN low = {} /\ ~wasFound /\ S = {}
  ELSE /\ h.tried
       /\ S \subseteq h.inv
       /\ low \subseteq S
       /\ \A a \in S : h.before[a] \subseteq S
       /\ \A s \in h.seen : s \subseteq S \/ S \subseteq s
ReadEnd(h, found, S) == IF found THEN [h EXCEPT !.seen = @ \cup {S}, !.found = TRUE] ELSE h
=============================================================================
