------------------------------ MODULE AggOps ------------------------------
(* The algebra of aggregations: what one recording does to an aggregation,  *)
(* what merging two of them means, and when two aggregations are equal.     *)
(* Shared by the specifications of the polling sink (Poll), of merge/clone  *)
(* (MergeClone) and of healthd (Healthd).                                   *)
(*                                                                          *)
(* Durations are integers in a unit chosen per trace (the algebra is        *)
(* scale-invariant, and TLC integers have 32 bits); gauge values are opaque *)
(* tokens (only "the last one wins" matters).                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

EmptyMap == [x \in {} |-> 0]
Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d

Statuses == {"success", "validation_error", "panic", "error", "junk"}
Kinds    == {"event", "err", "timing", "gauge", "complete"}

ZeroTimer == [c |-> 0, s |-> 0, q |-> 0, mn |-> 0, mx |-> 0]
ZeroSt    == [success |-> 0, validation_error |-> 0, panic |-> 0, error |-> 0, junk |-> 0]
ZeroMaps  == [ev |-> EmptyMap, er |-> EmptyMap, ga |-> EmptyMap, ti |-> EmptyMap]
ZeroJob   == [ev |-> EmptyMap, er |-> EmptyMap, ga |-> EmptyMap, ti |-> EmptyMap,
              tm |-> ZeroTimer, st |-> ZeroSt]
ZeroAgg   == [ev |-> EmptyMap, er |-> EmptyMap, ga |-> EmptyMap, ti |-> EmptyMap,
              jobs |-> EmptyMap]

(* One duration added to a summary.                                         *)
Ingest(t, v) ==
  [c  |-> t.c + 1,
   s  |-> t.s + v,
   q  |-> t.q + v * v,
   mn |-> IF t.c = 0 \/ v < t.mn THEN v ELSE t.mn,
   mx |-> IF t.c = 0 \/ v > t.mx THEN v ELSE t.mx]

(* The four maps that exist overall and per job; o is a recording:          *)
(* [k: kind, job, ev: event, v: duration, g: gauge token, st: status].      *)
ApplyMaps(m, o) ==
  CASE o.k = "event"  -> [m EXCEPT !.ev = Put(@, o.ev, Get(@, o.ev, 0) + 1)]
    [] o.k = "err"    -> [m EXCEPT !.er = Put(@, o.ev, Get(@, o.ev, 0) + 1)]
    [] o.k = "gauge"  -> [m EXCEPT !.ga = Put(@, o.ev, o.g)]
    [] o.k = "timing" -> [m EXCEPT !.ti = Put(@, o.ev, Ingest(Get(@, o.ev, ZeroTimer), o.v))]
    [] OTHER          -> m

ApplyJob(j, o) ==
  IF o.k = "complete"
  THEN [j EXCEPT !.tm = Ingest(@, o.v),
                 !.st = IF o.st \in Statuses THEN [@ EXCEPT ![o.st] = @ + 1] ELSE @]
  ELSE ApplyMaps(j, o)

Apply(a, o) ==
  [ApplyMaps(a, o) EXCEPT !.jobs = Put(@, o.job, ApplyJob(Get(@, o.job, ZeroJob), o))]

RECURSIVE ApplyAll(_, _)
ApplyAll(a, os) == IF os = <<>> THEN a ELSE ApplyAll(Apply(a, Head(os)), Tail(os))

(* Merging: what b adds to a.                                               *)
MergeTimer(a, b) ==
  IF b.c = 0 THEN a ELSE IF a.c = 0 THEN b ELSE
  [c  |-> a.c + b.c,
   s  |-> a.s + b.s,
   q  |-> a.q + b.q,
   mn |-> IF b.mn < a.mn THEN b.mn ELSE a.mn,
   mx |-> IF b.mx > a.mx THEN b.mx ELSE a.mx]

Union2(f, g, Op(_, _)) ==
  [x \in (DOMAIN f) \cup (DOMAIN g) |->
     IF x \notin DOMAIN g THEN f[x] ELSE IF x \notin DOMAIN f THEN g[x] ELSE Op(f[x], g[x])]

Plus(x, y)   == x + y
Second(x, y) == y

MergeJob(a, b) ==
  [ev |-> Union2(a.ev, b.ev, Plus), er |-> Union2(a.er, b.er, Plus),
   ga |-> Union2(a.ga, b.ga, Second), ti |-> Union2(a.ti, b.ti, MergeTimer),
   tm |-> MergeTimer(a.tm, b.tm), st |-> [x \in Statuses |-> a.st[x] + b.st[x]]]

Merge(a, b) ==
  [ev |-> Union2(a.ev, b.ev, Plus), er |-> Union2(a.er, b.er, Plus),
   ga |-> Union2(a.ga, b.ga, Second), ti |-> Union2(a.ti, b.ti, MergeTimer),
   jobs |-> Union2(a.jobs, b.jobs, MergeJob)]

(* Content of an observed aggregation (which also has start and serial).    *)
Content(x) == [ev |-> x.ev, er |-> x.er, ga |-> x.ga, ti |-> x.ti, jobs |-> x.jobs]

(* Overall figures are the sums over the jobs.                              *)
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})
Balanced(a) ==
  /\ \A e \in DOMAIN a.ev : a.ev[e] = SumOver([j \in DOMAIN a.jobs |-> Get(a.jobs[j].ev, e, 0)], DOMAIN a.jobs)
  /\ \A e \in DOMAIN a.er : a.er[e] = SumOver([j \in DOMAIN a.jobs |-> Get(a.jobs[j].er, e, 0)], DOMAIN a.jobs)
  /\ \A e \in DOMAIN a.ti : a.ti[e].c = SumOver([j \in DOMAIN a.jobs |-> Get(a.jobs[j].ti, e, ZeroTimer).c], DOMAIN a.jobs)
  /\ \A j \in DOMAIN a.jobs :
        /\ DOMAIN a.jobs[j].ev \subseteq DOMAIN a.ev
        /\ DOMAIN a.jobs[j].er \subseteq DOMAIN a.er
        /\ DOMAIN a.jobs[j].ti \subseteq DOMAIN a.ti
        /\ DOMAIN a.jobs[j].ga \subseteq DOMAIN a.ga
        /\ a.jobs[j].tm.c >= a.jobs[j].st.success + a.jobs[j].st.validation_error
                              + a.jobs[j].st.panic + a.jobs[j].st.error + a.jobs[j].st.junk
TimerSane(t) == t.c >= 0 /\ (t.c > 0 => t.mn <= t.mx /\ t.c * t.mn <= t.s /\ t.s <= t.c * t.mx /\ t.q >= 0)
Sane(a) == /\ \A e \in DOMAIN a.ti : TimerSane(a.ti[e])
           /\ \A j \in DOMAIN a.jobs : TimerSane(a.jobs[j].tm)
=============================================================================
