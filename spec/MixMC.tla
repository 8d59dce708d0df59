------------------------------- MODULE MixMC --------------------------------
(* The ways of telling the story agree with each other, and with the parts    *)
(* told before and after a later sink was attached.                           *)
EXTENDS Mix
CONSTANTS MaxRec, MaxSinks, Jobs, Evs, MaxErr
VARIABLES emitted
mc == <<mvars, emitted>>
R(k, job, ev, v, g, st, due) == [k |-> k, job |-> job, ev |-> ev, v |-> v, g |-> g, st |-> st, err |-> "x", kvs |-> <<>>, due |-> due,
                                 t |-> [y |-> 2000, mo |-> 1, d |-> 1, h |-> 0, mi |-> 0, s |-> 0, ns |-> 0]]
Recs == {R("event", j, e, 0, 0, "", FALSE) : j \in Jobs, e \in Evs} \cup {R("err", j, e, 0, 0, "", d) : j \in Jobs, e \in Evs, d \in BOOLEAN}
        \cup {R("timing", j, e, v, 0, "", FALSE) : j \in Jobs, e \in Evs, v \in {0, 3}} \cup {R("gauge", j, e, 0, g, "", FALSE) : j \in Jobs, e \in Evs, g \in {-3, 0, 4}}
        \cup {R("complete", j, "", 7, 0, "panic", FALSE) : j \in Jobs}
C == [kind |-> "any", prefix |-> "p", skiptop |-> FALSE, skipnested |-> FALSE]
MCInit == MInit /\ emitted = 0
MCNext == \/ Len(sinks) < MaxSinks /\ Attach(C) /\ UNCHANGED emitted
          \/ Len(hist) < MaxRec /\ \E r \in Recs : Told(<<r>>) /\ emitted' = emitted + (IF r.due THEN 1 ELSE 0) /\ emitted' <= MaxErr
MCSpec == MCInit /\ [][MCNext]_mc
Sum(f, S) == FoldLeft(LAMBDA a, x : a + f[x], 0, SetToSeq(S))
Count(rs, ks) == Len(SelectSeq(rs, LAMBDA r : r.k \in ks))
(* every sink sees a suffix of what any earlier sink sees                     *)
InvSuffix == \A i, j \in 1..Len(sinks) : i <= j => LET a == Story(sinks[i])  b == Story(sinks[j]) IN Len(b) <= Len(a) /\ b = SubSeq(a, Len(a) - Len(b) + 1, Len(a))
Views(s) ==
  LET rs == Story(s)  agg == Aggregated(rs)  lib == Measured(C, rs)  ls == Lines(C, rs, 1) IN
  /\ Ops!Balanced(agg)
  /\ Sum(agg.ev, DOMAIN agg.ev) = Count(rs, {"event"})
  /\ Sum(agg.er, DOMAIN agg.er) = Count(rs, {"err"})
  /\ Len(ls) = 2 * Count(rs, {"event", "err", "timing", "gauge"}) + Count(rs, {"complete"})
  /\ \A i \in 1..Len(rs) : Cardinality(Texts(rs[i], 1)) = 2
  /\ Len(Notified(rs)) <= Count(rs, {"err"})
  /\ \A e \in DOMAIN agg.ev : lib["p." \o e \o ".count"].c = agg.ev[e]
  /\ \A e \in DOMAIN agg.ti : lib["p." \o e \o ".timing"].s = agg.ti[e].s /\ lib["p." \o e \o ".timing"].mx = agg.ti[e].mx
  /\ \A j \in DOMAIN agg.jobs : agg.jobs[j].tm.c > 0 => lib["p." \o j \o ".panic.timing"].c = agg.jobs[j].tm.c
InvViews == \A i \in 1..Len(sinks) : Views(sinks[i])
(* what an earlier sink tells is what was told before plus what a later tells *)
InvAdds == \A i, j \in 1..Len(sinks) : i <= j =>
             LET a == Story(sinks[i])  b == Story(sinks[j])  pre == SubSeq(a, 1, Len(a) - Len(b)) IN
             /\ Aggregated(a) = Ops!Merge(Aggregated(pre), Aggregated(b))
             /\ Notified(a) = Notified(pre) \o Notified(b)
             /\ Lines(C, a, 1) = Lines(C, pre, 1) \o Lines(C, b, 1)
=============================================================================
