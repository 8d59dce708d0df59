------------------------------ MODULE MixTrace ------------------------------
(* One or two applications at the same time (C.n): at the end each sink must  *)
(* have told exactly its part of the story.                                   *)
EXTENDS Mix, Json, IOUtils
CONSTANT FOCUS
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
C == Traces[tid].cfg
MicroFromTrace == Traces[1].cfg.micro
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ MInit
Evt == Traces[tid].ev[l]
KvSet(kvs) == {<<kvs[i].k, kvs[i].v>> : i \in 1..Len(kvs)}
KvSet2(kvs) == {<<kvs[i][1], kvs[i][2]>> : i \in 1..Len(kvs)}
Same(a, b) == /\ a.k = b.k /\ a.job = b.job /\ a.ev = b.ev /\ a.v = b.v /\ a.g = b.g /\ a.st = b.st /\ a.err = b.err
              /\ Len(a.kvs) = Len(b.kvs) /\ KvSet(a.kvs) = KvSet(b.kvs)
AccSet(acc) == {<<k, acc[k].t, acc[k].c, acc[k].s, acc[k].q, acc[k].mn, acc[k].mx>> : k \in DOMAIN acc}
(* what all submissions together say                                          *)
AddM(acc, m) == IF m.key \notin DOMAIN acc THEN (m.key :> [t |-> m.t, c |-> m.c, s |-> m.s, q |-> m.q, mn |-> m.mn, mx |-> m.mx]) @@ acc
                ELSE [acc EXCEPT ![m.key] = [t |-> @.t, c |-> @.c + m.c, s |-> @.s + m.s, q |-> @.q + m.q,
                                             mn |-> IF m.mn < @.mn THEN m.mn ELSE @.mn, mx |-> IF m.mx > @.mx THEN m.mx ELSE @.mx]]
RECURSIVE AllPosts(_, _)
AllPosts(acc, ps) == IF ps = <<>> THEN acc ELSE AllPosts(FoldLeft(AddM, acc, ps[1].ms), Tail(ps))
RECURSIVE AllAggs(_, _)
AllAggs(a, xs) == IF xs = <<>> THEN a ELSE AllAggs(Ops!Merge(a, Ops!Content(xs[1])), Tail(xs))
Notes(c, rs, ps) == /\ Len(ps) = Len(rs)
                    /\ \A i \in 1..Len(rs) : /\ ps[i].ok /\ ps[i].key = c.prefix /\ ps[i].context = rs[i].job /\ ps[i].class = rs[i].ev /\ ps[i].msg = rs[i].err
                                             /\ Len(ps[i].kvs) = Len(rs[i].kvs) /\ KvSet2(ps[i].kvs) = KvSet(rs[i].kvs)
Tells(s, o) ==
  LET rs == Story(s) IN
  CASE s.kind = "app" -> Len(o.seen) = Len(rs) /\ \A i \in 1..Len(rs) : Same(o.seen[i], rs[i])
    [] s.kind = "text" -> Len(o.ws) = Len(rs) /\ \A i \in 1..Len(rs) : o.ws[i].raw \in Texts(rs[i], C.ms)
    [] s.kind = "json" -> Len(o.ws) = Len(rs) /\ \A i \in 1..Len(rs) : WR!JsonIs(Written(rs[i], C.ms), o.ws[i])
    [] s.kind = "statsd" -> LET ls == Lines(s.cfg, rs, C.ms) IN
                            o.whole /\ Len(o.ls) = Len(ls) /\ \A i \in 1..Len(ls) : o.ls[i] \in ls[i]
    [] s.kind = "poll" -> AllAggs(Ops!ZeroAgg, o.aggs) = Aggregated(rs)
    [] s.kind = "librato" -> /\ \A i \in 1..Len(o.posts) : o.posts[i].ok
                             /\ AccSet(AllPosts(<<>>, o.posts)) = AccSet(Measured(s.cfg, rs))
    [] s.kind = "bugsnag" -> Notes(s.cfg, Notified(rs), o.posts)
    [] s.kind = "dead" -> TRUE
TNext ==
  \/ /\ l <= Len(Traces[tid].ev)
     /\ CASE Evt.op = "attach" -> Attach([kind |-> Evt.kind, prefix |-> Evt.prefix, skiptop |-> Evt.skiptop, skipnested |-> Evt.skipnested])
          [] Evt.op = "rec" -> Told(Evt.rs) /\ Evt.same
          [] Evt.op = "end" -> /\ Len(Evt.outs) = Len(sinks)
                               /\ \A i \in 1..Len(sinks) : Tells(sinks[i], Evt.outs[i])
                               /\ hist' = <<>> /\ sinks' = <<>>       \* the other application's run follows
          [] OTHER -> FALSE
     /\ l' = l + 1 /\ tid' = tid
  \/ l > Len(Traces[tid].ev) /\ UNCHANGED <<mvars, tid, l>>
=============================================================================
