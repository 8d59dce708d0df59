------------------------------ MODULE Healthd -------------------------------
(* healthd at the level of its polls and its query API: what the hosts       *)
(* answered decides, exactly, what healthd lists.                            *)
(*                                                                           *)
(* Times are milliseconds since healthd was started. An answer is            *)
(* [h, t, pt, code, good, err, inst, dur, aggs]: host, time it was given,    *)
(* time of the poll, and its content; `good` answers carry data.             *)
EXTENDS AggOps, SequencesExt, FiniteSetsExt

VARIABLES base,   \* <<start, instance, host>> |-> aggregation: certainly reflected
          pend,   \* later data, perhaps not reflected yet: sequence of [t, m]
          ilen,   \* interval length (ms) of the first good answer, 0 before
          out,    \* hosts being polled: host |-> time of the poll
          np,     \* host |-> number of polls
          stat,   \* host |-> its latest answer and times of successful ones
          last,   \* host |-> its latest good answer's data (to expand "same")
          stopped \* "no", "called", "yes"
hvars == <<base, pend, ilen, out, np, stat, last, stopped>>

Retain == 7200000
Every  == 10000
Grace  == 3000
Slack  == 1000

NoStat == [seen |-> FALSE, pt |-> 0, t |-> 0, code |-> 0, err |-> "no", inst |-> <<"">>, dur |-> <<0>>,
           f |-> FALSE, ft |-> 0, lt |-> 0]

HInit(hosts) ==
  /\ base = EmptyMap /\ pend = <<>> /\ ilen = 0 /\ out = EmptyMap
  /\ np = [h \in hosts |-> 0] /\ stat = [h \in hosts |-> NoStat]
  /\ last = EmptyMap /\ stopped = "no"

(* --- polls --------------------------------------------------------------- *)
PollOK(h, t) == /\ h \notin DOMAIN out
                /\ t >= np[h] * Every /\ t <= np[h] * Every + Slack
PollStart(h, t) ==
  /\ out' = Put(out, h, t) /\ np' = [np EXCEPT ![h] = @ + 1]
  /\ UNCHANGED <<base, pend, ilen, stat, last, stopped>>
(* no poll of any host is overdue at time t                                  *)
PollsOnTime(t) == \A h \in DOMAIN np : np[h] * Every + Slack >= t

Data(e) == IF e.same THEN last[e.h].aggs ELSE e.aggs
Keyed(e) == LET d == Data(e) IN
            [k \in {<<d[i].start, e.inst[1], e.h>> : i \in 1..Len(d)} |->
               Content(d[CHOOSE i \in 1..Len(d) : d[i].start = k[1]])]
Counted(e) == e.good /\ (ilen = 0 \/ e.dur[1] = ilen)
Answer(e) ==
  /\ out' = [h \in (DOMAIN out) \ {e.h} |-> out[h]]
  /\ ilen' = IF e.good /\ ilen = 0 THEN e.dur[1] ELSE ilen
  /\ pend' = IF Counted(e) /\ ~e.same THEN Append(pend, [t |-> e.t, m |-> Keyed(e)]) ELSE pend
  /\ last' = IF e.good THEN Put(last, e.h, [inst |-> e.inst[1], aggs |-> Data(e)]) ELSE last
  /\ stat' = [stat EXCEPT ![e.h] =
       [seen |-> TRUE, pt |-> e.pt, t |-> e.t, code |-> e.code, err |-> e.err, inst |-> e.inst, dur |-> e.dur,
        f |-> @.f \/ e.good,
        ft |-> IF e.good /\ ~@.f THEN e.t ELSE @.ft,
        lt |-> IF e.good THEN e.t ELSE @.lt]]
  /\ UNCHANGED <<base, np, stopped>>

(* --- listing (C18) -------------------------------------------------------- *)
Over(f, g) == [k \in (DOMAIN f) \cup (DOMAIN g) |-> IF k \in DOMAIN g THEN g[k] ELSE f[k]]
Latest(c) == FoldLeft(LAMBDA f, p : Over(f, p.m), base, SubSeq(pend, 1, c))
Starts(lat) == {k[1] : k \in DOMAIN lat}
MaxIntervals == IF ilen = 0 THEN 0 ELSE Retain \div ilen
Listed(lat) == LET S == Starts(lat) IN {s \in S : Cardinality({u \in S : u > s}) < MaxIntervals}
Parts(lat, s) == {lat[k] : k \in {k \in DOMAIN lat : k[1] = s}}
PartSeq(lat, s) == LET K == {k \in DOMAIN lat : k[1] = s} IN [i \in 1..Cardinality(K) |-> lat[SetToSeq(K)[i]]]
NoGa(a) == [a EXCEPT !.ga = DOMAIN @, !.jobs = [j \in DOMAIN @ |-> [@[j] EXCEPT !.ga = DOMAIN @]]]
GaugesFrom(a, ps) ==
  /\ \A g \in DOMAIN a.ga : \E i \in 1..Len(ps) : g \in DOMAIN ps[i].ga /\ ps[i].ga[g] = a.ga[g]
  /\ \A j \in DOMAIN a.jobs : \A g \in DOMAIN a.jobs[j].ga :
       \E i \in 1..Len(ps) : j \in DOMAIN ps[i].jobs /\ g \in DOMAIN ps[i].jobs[j].ga /\ ps[i].jobs[j].ga[g] = a.jobs[j].ga[g]
MergeSeq(ps) == FoldLeft(LAMBDA x, y : Merge(x, y), ZeroAgg, ps)
IntervalOK(lat, o) == LET ps == PartSeq(lat, o.start) IN
                      NoGa(Content(o)) = NoGa(MergeSeq(ps)) /\ GaugesFrom(Content(o), ps)
ListOK(lat, obs) ==
  LET L == Listed(lat) IN
  /\ Len(obs) = Cardinality(L)
  /\ \A i \in 1..Len(obs) : obs[i].start \in L
  /\ \A i \in 1..Len(obs) - 1 : obs[i].start < obs[i + 1].start
  /\ \A i \in 1..Len(obs) : IntervalOK(lat, obs[i])
(* what must be reflected at time t: everything if no poll is under way,     *)
(* else what was obtained three seconds ago or earlier                       *)
MustShow(t) == IF DOMAIN out = {} THEN Len(pend) ELSE Cardinality({i \in 1..Len(pend) : pend[i].t <= t - Grace})
Cuts(t, obs) == {c \in MustShow(t)..Len(pend) : ListOK(Latest(c), obs)}
Shown(t, obs) ==     \* commit to the earliest possibility
  \E c \in {Cuts(t, obs)} : c # {} /\ LET m == CHOOSE x \in c : \A y \in c : x <= y IN
    /\ base' = Latest(m) /\ pend' = SubSeq(pend, m + 1, Len(pend))
    /\ UNCHANGED <<ilen, out, np, stat, last, stopped>>

(* --- derived answers (C19) ------------------------------------------------ *)
OverallOK(list, o) ==
  IF list = <<>> THEN ~o.has
  ELSE o.has /\ o.agg.start = list[1].start     \* it begins where the first one does
       /\ NoGa(Content(o.agg)) = NoGa(MergeSeq([i \in 1..Len(list) |-> Content(list[i])]))
       /\ GaugesFrom(Content(o.agg), [i \in 1..Len(list) |-> Content(list[i])])
RowOK(r, j) ==
  /\ r.tm = j.tm /\ r.st = j.st /\ r.avgc = j.tm.s
  /\ r.vr = IF j.tm.c < 2 THEN 0 ELSE j.tm.c * j.tm.q - j.tm.s * j.tm.s
FullOK(rows, o) ==
  LET J == IF o.has THEN o.agg.jobs ELSE EmptyMap IN
  /\ Len(rows) = Cardinality(DOMAIN J)
  /\ {rows[i].n : i \in 1..Len(rows)} = DOMAIN J
  /\ \A i \in 1..Len(rows) : RowOK(rows[i], J[rows[i].n])
(* a may stand before b when sorted by col                                   *)
AvgGE(a, b) == IF a.c = 0 THEN (b.c = 0 \/ b.s <= 0) ELSE IF b.c = 0 THEN a.s >= 0 ELSE a.s * b.c >= b.s * a.c
Before(col, a, b) ==
  CASE col = "name" -> a.rn <= b.rn
    [] col = "count" -> a.tm.c >= b.tm.c
    [] col = "count_success" -> a.st.success >= b.st.success
    [] col = "count_validation_error" -> a.st.validation_error >= b.st.validation_error
    [] col = "count_panic" -> a.st.panic >= b.st.panic
    [] col = "count_error" -> a.st.error >= b.st.error
    [] col = "count_junk" -> a.st.junk >= b.st.junk
    [] col = "total_time" -> a.tm.s >= b.tm.s
    [] col = "avg" -> AvgGE(a.tm, b.tm)
    [] col = "min" -> a.tm.mn >= b.tm.mn
    [] col = "max" -> a.tm.mx >= b.tm.mx
    [] col = "stddev" -> a.rs >= b.rs
    [] OTHER -> TRUE
SubOK(full, q) ==
  LET F == {full[i] : i \in 1..Len(full)}
      R == {q.rows[i] : i \in 1..Len(q.rows)}
      n == IF q.lim > 0 /\ q.lim < Len(full) THEN q.lim ELSE Len(full) IN
  /\ Len(q.rows) = n /\ Cardinality(R) = n /\ R \subseteq F
  /\ \A i \in 1..n - 1 : Before(q.col, q.rows[i], q.rows[i + 1])
  /\ n > 0 => \A f \in F \ R : Before(q.col, q.rows[n], f)

(* --- host status (C20) ----------------------------------------------------- *)
In(x, s) == s = <<>> \/ \E i \in 1..Len(s) : s[i] = x
StatusOK(s, o) ==
  IF ~s.seen THEN o.check = -1 /\ o.code = 0 /\ o.inst = "" /\ o.dur = 0 /\ o.err = "no" /\ o.first = -1 /\ o.last = -1
  ELSE /\ o.check = s.pt /\ o.code = s.code
       /\ s.code # 0 => o.ms >= s.t - s.pt - 1 /\ o.ms <= s.t - s.pt     \* response time
       /\ In(o.inst, s.inst) /\ In(o.dur, s.dur)
       /\ o.err = s.err
       /\ IF s.f THEN o.first = s.ft /\ o.last = s.lt     \* when the answer was there
          ELSE o.first = -1 /\ o.last = -1
HostsOK(order, rows) ==
  /\ Len(rows) = Len(order)
  /\ \A i \in 1..Len(order) : rows[i].h = order[i] /\ StatusOK(stat[order[i]], rows[i])
=============================================================================
