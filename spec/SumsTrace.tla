----------------------------- MODULE SumsTrace -----------------------------
(***************************************************************************)
(* Checks recorded uses of the summary packages (bitbucket, bloom, hll,    *)
(* stat64, fnv) against their specifications.  An event is a call with its *)
(* results.  objs holds the abstract state of every object of a trace,     *)
(* bufs the buffers that objects alias.                                    *)
(***************************************************************************)
EXTENDS BitBucket, Measures, Fnv, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACES)
Traces == Data.traces

VARIABLES t, l,
          objs,       \* object name |-> state
          learnt,     \* what has been seen of the items' hashes: <<parameters, item>> |-> contribution (hll)
          tally       \* running totals of the statistical events, [expected, seen, probes]
vars == <<t, l, objs, learnt, tally>>

Ev == Traces[t].ev[l]
Known(o) == o \in DOMAIN objs
Obj == objs[Ev.o]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Put1(o) == With(objs, Ev.o, o)

Init == t \in DOMAIN Traces /\ l = 1 /\ objs = << >> /\ learnt = << >> /\ tally = [exp |-> "0", seen |-> 0, probes |-> 0]

Keep == UNCHANGED <<learnt, tally>>
Same == UNCHANGED objs /\ Keep

\* the objects that share a buffer with object o, o included
Sharing(o) == IF objs[o].buf = "" THEN {o} ELSE {x \in DOMAIN objs : objs[x].buf = objs[o].buf}
\* object Ev.o changed its bit bucket to b
Changed(b, add) ==
  objs' = [x \in DOMAIN objs |-> IF x \in Sharing(Ev.o)
             THEN [objs[x] EXCEPT !.b = b, !.added = IF add = {} THEN {} ELSE @ \cup add] ELSE objs[x]]

----------------------------------------------------------------------------
(* Objects on a bit bucket: [kind, par, b, added, buf, pre]; par is the k of a bloom filter and the p of  *)
(* a counter; added the items added; buf the name of the buffer it aliases, or ""                          *)

Fresh(kind, par, b) == [kind |-> kind, par |-> par, b |-> b, added |-> {}, buf |-> "", tail |-> << >>]
EncodeO(o) == IF o.kind = "bb" THEN EncodeBB(o.b) ELSE EncodeS(o.par, o.b)
LenO(o) == LenBB(o.b.n, o.b.w) + (IF o.kind = "bb" THEN 0 ELSE 2)

New == Ev.e = "new" /\ Keep /\
  LET o == CASE Ev.kind = "bb" -> Fresh("bb", 0, NewBB(Ev.n, Ev.w))
             [] Ev.kind = "bloom" -> Fresh("bloom", Ev.k, NewBB(Ev.m, 1))
             [] Ev.kind = "hll" -> Fresh("hll", Ev.p, NewBB(2^Ev.p, 6))
  IN  /\ objs' = Put1(o)
      /\ Ev.len = LenO(o)
      /\ Ev.plen \in {-1, LenO(o)}

\* a bit bucket
Op ==
  \/ Ev.e = "set"   /\ Changed(SetV(Obj.b, Ev.i, Ev.v), {}) /\ Keep
  \/ Ev.e = "incn"  /\ Changed(IncV(Obj.b, Ev.i, Ev.v), {}) /\ Keep
  \/ Ev.e = "reset" /\ Changed(Zero(Obj.b), {}) /\ Keep
  \/ Ev.e = "get"   /\ Ev.r = Val(Obj.b, Ev.i) /\ Same
  \/ Ev.e = "dump"  /\ Len(Ev.r) = Obj.b.n /\ (\A i \in DOMAIN Ev.r : Ev.r[i] = Val(Obj.b, i - 1)) /\ Same
  \/ Ev.e = "countn" /\ Ev.r = CountV(Obj.b, Ev.v) /\ Same
  \/ Ev.e = "info"  /\ Ev.count = Obj.b.n /\ Ev.width = Obj.b.w /\ Ev.max = Largest(Obj.b.w) /\ Ev.len = LenO(Obj) /\ Same

----------------------------------------------------------------------------
(* Serialization *)

\* WriteTo a writer that fails after lim bytes (-1: never)
Wrote == Ev.e = "write" /\ Same /\
  LET s == EncodeO(Obj)
  IN  IF Ev.lim < 0 \/ Ev.lim >= Len(s)
      THEN Ev.ok /\ Ev.n = Len(s) /\ Ev.bytes = s /\ Ev.len = Len(s)
      ELSE ~Ev.ok /\ Ev.n = Ev.lim /\ Ev.bytes = SubSeq(s, 1, Ev.lim)

\* An object is made from bytes, by ReadFrom (how = "from") or WithBytes ("with").  fault: the reader fails.
\* of is the object whose serialized form the bytes are, or "": it has the same items.
Read == Ev.e = "read" /\ Keep /\
  LET d   == IF Ev.kind = "bb" THEN DecodeBB(Ev.bytes) ELSE DecodeS(Ev.bytes)
      ok  == /\ ~Ev.fault
             /\ d.ok
             /\ Ev.how = "from" => d.len = Len(Ev.bytes)
      par == IF Ev.kind = "bb" THEN 0 ELSE d.par
      its == IF Ev.of = "" THEN {} ELSE objs[Ev.of].added
  IN  /\ Ev.ok = ok
      /\ IF ok
         THEN /\ Ev.how = "from" => Ev.n = Len(Ev.bytes)
              /\ objs' = Put1([kind |-> Ev.kind, par |-> par, b |-> d.b, added |-> its,
                               buf |-> IF Ev.how = "with" THEN Ev.buf ELSE "",
                               tail |-> SubSeq(Ev.bytes, d.len + 1, Len(Ev.bytes))])
         ELSE objs' = [x \in DOMAIN objs \ {Ev.o} |-> objs[x]]

\* the buffer an object aliases
Buf == Ev.e = "buf" /\ Same /\ Ev.bytes = EncodeO(Obj) \o Obj.tail

----------------------------------------------------------------------------
(* diff is the sequence of <<bucket, value>> a call changed *)

RECURSIVE PutAll(_, _, _)
PutAll(b, diff, i) == IF i > Len(diff) THEN b ELSE PutAll(Put(b, diff[i][1], diff[i][2]), diff, i + 1)

(* bloom filters *)

BloomAdd == Ev.e = "badd" /\ Keep /\
  /\ Len(Ev.diff) <= Obj.par
  /\ \A i \in DOMAIN Ev.diff : Val(Obj.b, Ev.diff[i][1]) = 0 /\ Ev.diff[i][2] = 1
  /\ Ev.x \in Obj.added => Ev.diff = << >>
  /\ Ev.has
  /\ Changed(PutAll(Obj.b, Ev.diff, 1), {Ev.x})

\* Has x of an object.  The answer is a function of the item, the parameters and the bits, and setting more bits
\* only turns it from no to yes: it agrees with every earlier answer about x.
BloomHas == Ev.e = "has" /\ UNCHANGED <<objs, tally>> /\
  LET key == <<"has", Obj.par, Obj.b.n, Ev.x>>
      bs  == DOMAIN Obj.b.nz
      old == IF key \in DOMAIN learnt THEN learnt[key] ELSE {}
  IN  /\ Ev.x \in Obj.added => Ev.r
      /\ bs = {} /\ Obj.par > 0 => ~Ev.r
      /\ \A h \in old : (h[2] /\ h[1] \subseteq bs => Ev.r) /\ (~h[2] /\ bs \subseteq h[1] => ~Ev.r)
      /\ learnt' = With(learnt, key, old \cup {<<bs, Ev.r>>})

RECURSIVE RPow(_, _)
RPow(x, n) == IF n = 0 THEN "1" ELSE RMul(x, RPow(x, n - 1))

\* the proportion of bits set to the power k, exactly: the rate at which independent, uniform hashes
\* report an item that was not added
FillRate(fill, m, k) == RPow(RDiv(RInt(fill), RInt(m)), k)
\* Count and ErrorRate of a small filter: 0 for an empty one, within bounds of the truth otherwise
BloomStat == Ev.e = "bstat" /\ Same /\
  LET fill == Cardinality(DOMAIN Obj.b.nz)
      r == FillRate(fill, Obj.b.n, Obj.par)
  IN  /\ Ev.rate.k = "num"
      \* (rates too small for a float64 are 0)
      /\ RLe(RAbs(RSub(Ev.rate.v, r)), RAdd(RMul(r, RDiv("1", RInt(1000000))), RPow2(-1000)))
      /\ fill = 0 => Ev.count = 0
      /\ fill > 0 => Ev.count >= 1 \/ fill = Obj.b.n

\* A filter made for n items with rate p, holding `items` of them: none is missing; Count; ErrorRate; and how many
\* of `probes` other items it reports.
\* 8 standard deviations of the estimate at full load, which is about sqrt(0.44 * items / k), and rounding; and
\* a bias of at most 8 percent (25 for fewer than 3 hash functions), from the double hashing
BloomCountOk(got, items, k) ==
  LET off == IF got >= items THEN got - items ELSE items - got
      d == (off - 2) - ((items * (IF k < 3 THEN 25 ELSE 8)) \div 100)
  IN  d <= 0 \/ RLe(RMul(RMul(RInt(d), RInt(d)), RInt(k)), RMul("32", RInt(items)))
BloomBatch == Ev.e = "bbatch" /\ UNCHANGED <<objs, learnt>> /\
  /\ Ev.missing = 0
  /\ BloomCountOk(Ev.count, Ev.items, Ev.k)
  /\ Ev.after = 0                                         \* items reported present after Reset
  /\ tally' = [exp |-> RAdd(tally.exp, RMul(RInt(Ev.probes), Ev.p)),
               seen |-> tally.seen + Ev.fp,
               probes |-> tally.probes + Ev.probes]
  /\ Ev.rate.k = "num"
  \* ErrorRate against the measured rate: factor 2, and 8 standard deviations of the measurement
  /\ LET e == RMul(RInt(Ev.probes), Ev.rate.v)
         d == RSub(RAbs(RSub(RInt(Ev.fp), e)), e)
     IN  RLe(d, "20") \/ RLe(RMul(d, d), RMul("64", e))

\* over all filters so far: no more than 3/2 of the promised rate (twice for small filters and rates), and 8
\* standard deviations
Total == Ev.e = "total" /\ Same /\
  LET d == RSub(RInt(tally.seen), RMul(tally.exp, IF Ev.n < 300 \/ RLt(Ev.rate, "1/200") THEN "2" ELSE "3/2"))
  IN  RLe(d, "12") \/ RLe(RMul(d, d), RMul("64", tally.exp))

----------------------------------------------------------------------------
(* hyperloglog counters *)

HllAdd == Ev.e = "hadd" /\ UNCHANGED tally /\
  LET key == <<Obj.par, Ev.x>>
      b   == PutAll(Obj.b, Ev.diff, 1)
  IN  /\ Len(Ev.diff) <= 1
      /\ \A i \in DOMAIN Ev.diff : Val(Obj.b, Ev.diff[i][1]) < Ev.diff[i][2]
      /\ Ev.x \in Obj.added => Ev.diff = << >>
      /\ key \in DOMAIN learnt =>
           LET c == learnt[key]
           IN  Ev.diff = (IF c[2] > Val(Obj.b, c[1]) THEN <<c>> ELSE << >>)
      /\ learnt' = IF Len(Ev.diff) = 1 THEN With(learnt, key, Ev.diff[1]) ELSE learnt
      /\ Changed(b, {Ev.x})

HllCount == Ev.e = "hcount" /\ Same /\
  /\ EstimateOk(Obj.par, Cardinality(Obj.added), [k |-> "num", v |-> RInt(Ev.r)])

\* items distinct items in some order with repetitions; twin: a counter with the same items in another order is the same
HllBatch == Ev.e = "hbatch" /\ UNCHANGED <<objs, learnt>> /\
  /\ tally' = IF Ev.items * 3 < 2^Ev.p THEN tally            \* there rounding up dominates
              ELSE LET d == RInt(Ev.count - Ev.items)
                   IN  [exp |-> RAdd(tally.exp, RDiv(RMul(RMul(d, d), RInt(2^Ev.p)), RMul(RInt(Ev.items), RInt(Ev.items)))),
                        seen |-> tally.seen + 1, probes |-> 0]
  /\ EstimateOk(Ev.p, Ev.items, [k |-> "num", v |-> RInt(Ev.count)])
  /\ Ev.twin /\ Ev.again /\ Ev.count0 = 0 /\ Ev.reset

\* the squares of the relative errors of many counters average to at most about 1.08 / 2^p
HllRms == Ev.e = "hrms" /\ Same /\ RLe(tally.exp, RMul(Ev.bound, RInt(tally.seen)))

\* all counters of the trace with the same items are the same
HllSame == Ev.e = "hsame" /\ Same /\
  \A a, b \in DOMAIN objs : objs[a].par = objs[b].par /\ objs[a].added = objs[b].added => objs[a].b = objs[b].b

----------------------------------------------------------------------------
(* statistical summaries: [kind, g] *)

RECURSIVE AddSamples(_, _, _)
AddSamples(g, vs, i) == IF i > Len(vs) THEN g ELSE AddSamples(AddSample(g, vs[i]), vs, i + 1)

Stat ==
  \/ Ev.e = "snew"    /\ objs' = Put1([kind |-> "stat", g |-> NoStat, buf |-> Ev.buf]) /\ Keep
  \/ Ev.e = "supdate" /\ objs' = Put1([Obj EXCEPT !.g = AddSamples(@, Ev.vs, 1)]) /\ Keep
  \/ Ev.e = "sreset"  /\ objs' = Put1([Obj EXCEPT !.g = NoStat]) /\ Ev.ok /\ Keep
  \/ /\ Ev.e = "sread"
     /\ Same
     /\ Ev.count = Obj.g.n
     /\ Ev.len = 32
     /\ SumOk(Obj.g, Ev.sum) /\ MeanOk(Obj.g, Ev.mean) /\ VarOk(Obj.g, Ev.var)
     /\ Obj.g.n = 0 => Ev.sum = [k |-> "num", v |-> "0"] /\ Ev.mean = [k |-> "num", v |-> "0"]
     /\ Obj.g.n < 2 => Ev.var.k = "nan"
     \* (unless differences of the samples overflow)
     /\ Obj.g.fin => (Ev.var.k = "num" => RLe("0", Ev.var.v)) /\ Ev.var.k # "ninf"

----------------------------------------------------------------------------
(* hashes: [kind, a, h] *)

FnvOp ==
  \/ Ev.e = "fnew"   /\ objs' = Put1([kind |-> "fnv", a |-> Ev.a, h |-> Offset, buf |-> ""]) /\ Keep
  \/ Ev.e = "fwrite" /\ Ev.n = Len(Ev.bytes) /\ Ev.ok /\ objs' = Put1([Obj EXCEPT !.h = Feed(Obj.a, @, Ev.bytes)]) /\ Keep
  \/ Ev.e = "freset" /\ objs' = Put1([Obj EXCEPT !.h = Offset]) /\ Keep
  \/ Ev.e = "fsum"   /\ Ev.h = Obj.h /\ Ev.size = 8 /\ Ev.block = 1 /\ Same
  \/ Ev.e = "fappend" /\ Ev.bytes = Ev.pre \o BE(Obj.h) /\ Same
  \/ Ev.e = "fhelp"  /\ Same /\
                        LET a == Hash(TRUE, Ev.bytes)
                            b == Hash(FALSE, Ev.bytes)
                        IN  Ev.s64 = b /\ Ev.b64 = b /\ Ev.s64a = a /\ Ev.b64a = a

----------------------------------------------------------------------------
Step == /\ l <= Len(Traces[t].ev)
        /\ (New \/ Op \/ Wrote \/ Read \/ Buf \/ BloomAdd \/ BloomHas \/ BloomStat \/ BloomBatch \/ Total
              \/ HllAdd \/ HllCount \/ HllBatch \/ HllRms \/ HllSame \/ Stat \/ FnvOp)
        /\ l' = l + 1
        /\ t' = t
Done == l > Len(Traces[t].ev) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
