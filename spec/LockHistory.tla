---------------------------- MODULE LockHistory -----------------------------
(***************************************************************************)
(* What a history of concurrent calls of the sequence lock must look like  *)
(* (C16): linearizable to a register with put, get, and update, where an   *)
(* update whose function fails changes nothing.  Values are the numbers of *)
(* the calls that wrote them, 0 at the start.                              *)
(*                                                                         *)
(* poss: the pairs of a value the register can have and the set of the     *)
(* calls in progress that have then taken effect.                          *)
(* pend: the calls in progress with the results they are going to return.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* call c = [op, id, fail, saw]: saw is what a get returned or the update's function was given
Effect(c, v) == CASE c.op = "put" -> c.id
                  [] c.op = "upd" -> IF c.fail THEN v ELSE c.id
                  [] c.op = "get" -> v
Allowed(c, v) == c.op \in {"get", "upd"} => c.saw = v

RECURSIVE Closure(_, _)
Closure(poss, pend) ==
  LET more == {[v |-> Effect(pend[o], p.v), lin |-> p.lin \cup {o}] :
                 <<p, o>> \in {<<p, o>> \in poss \X DOMAIN pend : o \notin p.lin /\ Allowed(pend[o], p.v)}}
  IN  IF more \subseteq poss THEN poss ELSE Closure(poss \cup more, pend)

\* after call o has returned
After(poss, pend, o) == {[p EXCEPT !.lin = @ \ {o}] : p \in {p \in Closure(poss, pend) : o \in p.lin}}
=============================================================================
