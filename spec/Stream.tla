------------------------------- MODULE Stream -------------------------------
(* Streams, jobs, key/values, errors and runs (health.go, error.go): what    *)
(* each public call delivers to which sinks, and what it returns.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  now,      \* virtual time
  maps,     \* the callers' key/value maps: id |-> map (never changed by recording)
  streams,  \* id |-> [sinks: sequence of sink ids, kv: map, g: its own job]
  jobs,     \* id |-> [s: stream, name, kv, start, handle: can the user call it]
  errs,     \* errors seen so far: ref |-> [kind, cause, text, site, emitted]
  nret,     \* how many errors recording calls have returned
  runs,     \* stack of jobs currently running
  log       \* ghost: every delivery so far (model checking only)
svars == <<now, maps, streams, jobs, errs, nret, runs, log>>

CONSTANT GHOST

NoMap == [x \in {} |-> ""]
PutM(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Minus(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]
(* union in which the right argument wins *)
Over(f, g) == [x \in (DOMAIN f) \cup (DOMAIN g) |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]

NoErr == [ref |-> "", kind |-> "", cause |-> "", text |-> "", site |-> "", emitted |-> FALSE]

Caller(m) == IF m \in DOMAIN maps THEN maps[m] ELSE NoMap
Union(j, m) == Over(Over(streams[jobs[j].s].kv, jobs[j].kv), m)

(* One recording on job j reaches each sink of its stream once, in order.    *)
Fan(j, rec) == LET ss == streams[jobs[j].s].sinks
               IN [i \in 1..Len(ss) |-> [sink |-> ss[i]] @@ rec]
Rec(m, j, ev, v, g, st, kv, e) ==
  [m |-> m, job |-> jobs[j].name, ev |-> ev, v |-> v, g |-> g, st |-> st, kv |-> kv, e |-> e]

(* --- recordings --------------------------------------------------------- *)
(* o: [op: "rec", j: job id, m: kind, ev, v, g, st, kv: caller map id,       *)
(*     arg: error recorded, newref, site]                                    *)
Wrapped(o) ==      \* the error sinks see for this recording
  IF o.arg.kind = "raw"
  THEN [ref |-> o.newref, kind |-> "unmuted", cause |-> o.arg.ref, text |-> o.arg.text, site |-> o.site, emitted |-> FALSE]
  ELSE IF o.arg.kind = "muted"
  THEN [ref |-> o.arg.ref, kind |-> "muted", cause |-> "", text |-> o.arg.text, site |-> "", emitted |-> FALSE]
  ELSE IF o.arg.ref \in DOMAIN errs THEN [ref |-> o.arg.ref] @@ errs[o.arg.ref]
  ELSE [ref |-> o.arg.ref, kind |-> o.arg.kind, cause |-> o.arg.cause, text |-> o.arg.text, site |-> o.arg.site, emitted |-> FALSE]  \* wrapped by the application itself
Elapsed(j) == now - jobs[j].start
Expect(o) ==
  LET kv == Union(o.j, Caller(o.kv)) IN
  CASE o.m = "event"    -> Fan(o.j, Rec("event", o.j, o.ev, "", "", "", kv, NoErr))
    [] o.m = "err"      -> Fan(o.j, Rec("err", o.j, o.ev, "", "", "", kv, Wrapped(o)))
    [] o.m = "timing"   -> Fan(o.j, Rec("timing", o.j, o.ev, o.v, "", "", kv, NoErr))
    [] o.m = "gauge"    -> Fan(o.j, Rec("gauge", o.j, o.ev, "", o.g, "", kv, NoErr))
    [] o.m = "complete" -> Fan(o.j, Rec("complete", o.j, "", ToString(Elapsed(o.j)), "", o.st, kv, NoErr))
Keep(ds) == log' = IF GHOST THEN log \o ds ELSE log

Strip(e) == [kind |-> e.kind, cause |-> e.cause, text |-> e.text, site |-> e.site, emitted |-> e.emitted]
Record(o) ==
  /\ Keep(Expect(o))
  /\ IF o.m = "err"
     THEN LET e == Wrapped(o) IN
          /\ errs' = [r \in (DOMAIN errs) \cup {e.ref} |->
                        IF r = e.ref THEN Strip([e EXCEPT !.emitted = (e.kind = "unmuted")]) ELSE errs[r]]
          /\ nret' = nret + 1
     ELSE UNCHANGED <<errs, nret>>
  /\ UNCHANGED <<now, maps, streams, jobs, runs>>

(* --- everything else ---------------------------------------------------- *)
NewStream(o) ==    \* o: [s, j: id of its own job]
  /\ o.s \notin DOMAIN streams
  /\ streams' = streams @@ (o.s :> [sinks |-> <<>>, kv |-> NoMap, g |-> o.j])
  /\ jobs' = jobs @@ (o.j :> [s |-> o.s, name |-> "general", kv |-> NoMap, start |-> now, handle |-> TRUE])
  /\ UNCHANGED <<now, maps, errs, nret, runs, log>>
AddSink(o) ==
  /\ streams' = [streams EXCEPT ![o.s].sinks = Append(@, o.sink)]
  /\ UNCHANGED <<now, maps, jobs, errs, nret, runs, log>>
StreamKv(o) ==
  /\ streams' = [streams EXCEPT ![o.s].kv = PutM(@, o.key, o.val)]
  /\ UNCHANGED <<now, maps, jobs, errs, nret, runs, log>>
JobKv(o) ==
  /\ jobs' = [jobs EXCEPT ![o.j].kv = PutM(@, o.key, o.val)]
  /\ UNCHANGED <<now, maps, streams, errs, nret, runs, log>>
(* the fields of streams and jobs are exported: the application may use them directly *)
StreamKvDel(o) ==  \* a key/value is removed
  /\ streams' = [streams EXCEPT ![o.s].kv = Minus(@, o.key)]
  /\ UNCHANGED <<now, maps, jobs, errs, nret, runs, log>>
JobKvDel(o) ==
  /\ jobs' = [jobs EXCEPT ![o.j].kv = Minus(@, o.key)]
  /\ UNCHANGED <<now, maps, streams, errs, nret, runs, log>>
Rename(o) ==       \* the job gets another name
  /\ jobs' = [jobs EXCEPT ![o.j].name = o.name]
  /\ UNCHANGED <<now, maps, streams, errs, nret, runs, log>>
NewJob(o) ==       \* o: [s, j, name]
  /\ o.j \notin DOMAIN jobs
  /\ jobs' = jobs @@ (o.j :> [s |-> o.s, name |-> o.name, kv |-> NoMap, start |-> now, handle |-> TRUE])
  /\ UNCHANGED <<now, maps, streams, errs, nret, runs, log>>
CallerKv(o) ==     \* the caller changes its own map between calls
  /\ maps' = [maps EXCEPT ![o.m] = PutM(@, o.key, o.val)]
  /\ UNCHANGED <<now, streams, jobs, errs, nret, runs, log>>
Advance(o) == now' = now + o.n /\ UNCHANGED <<maps, streams, jobs, errs, nret, runs, log>>

RunJob(o) ==       \* job.Run is entered
  /\ runs' = Append(runs, o.j)
  /\ UNCHANGED <<now, maps, streams, jobs, errs, nret, log>>
RunStream(o) ==    \* stream.Run is entered: a new job nobody else has a handle on
  /\ o.j \notin DOMAIN jobs
  /\ jobs' = jobs @@ (o.j :> [s |-> o.s, name |-> o.name, kv |-> NoMap, start |-> now, handle |-> FALSE])
  /\ runs' = Append(runs, o.j)
  /\ UNCHANGED <<now, maps, streams, errs, nret, log>>
(* o: [op: "runend", out: "ok" | "error" | "panic", text, newref]            *)
PanicErr(o) == [ref |-> o.newref, kind |-> "unmuted", cause |-> "*", text |-> o.text, site |-> "*", emitted |-> FALSE]
RunEndExpect(o) ==
  LET j == runs[Len(runs)]
      done(st) == Fan(j, Rec("complete", j, "", ToString(Elapsed(j)), "", st, Union(j, NoMap), NoErr))
  IN CASE o.out = "ok"    -> done("success")
       [] o.out = "error" -> done("error")
       [] o.out = "panic" ->
            Fan(j, Rec("err", j, "panic", "", "", "", Union(j, "stack" :> o.stack), PanicErr(o))) \o done("panic")
RunEnd(o) ==
  /\ runs # <<>>
  /\ Keep(RunEndExpect(o))
  /\ runs' = SubSeq(runs, 1, Len(runs) - 1)
  /\ UNCHANGED <<now, maps, streams, jobs, errs, nret>>

(* --- bounded model ------------------------------------------------------ *)
CONSTANTS Streams, Sinks, MaxJobs, MaxRuns, MaxNow, MaxLog, MaxRet, OpKinds, Evs, KeySet, ValSet, MapIds, Raws, Ms, Advs, KvArgs

JobIds == 1..MaxJobs
HaveJobs == {j \in DOMAIN jobs : jobs[j].handle}
RawArg == [ref : Raws, kind : {"raw"}, text : {"t"}]
MutedArg == [ref : {"mu1"}, kind : {"muted"}, text : {"t"}]
RetArgs == {[ref |-> r, kind |-> "unmuted", text |-> "t"] : r \in {x \in DOMAIN errs : errs[x].kind = "unmuted"}}
NoArg == [ref |-> "", kind |-> "", text |-> ""]
R0(j, m, ev, v, g, st, kv, arg) ==
  [op |-> "rec", j |-> j, m |-> m, ev |-> ev, v |-> v, g |-> g, st |-> st, kv |-> kv, arg |-> arg,
   newref |-> ToString(nret + 1), site |-> "s"]
OpsFor(k) ==
  CASE k = "addsink" -> {[op |-> "addsink", s |-> s, sink |-> x] : s \in {y \in Streams : Len(streams[y].sinks) < Cardinality(Sinks)}, x \in Sinks}
                        \cap {o \in [op : {"addsink"}, s : Streams, sink : Sinks] :
                                \A i \in 1..Len(streams[o.s].sinks) : streams[o.s].sinks[i] # o.sink}
    [] k = "skv" -> [op : {"skv"}, s : Streams, key : KeySet, val : ValSet]
    [] k = "jkv" -> [op : {"jkv"}, j : HaveJobs, key : KeySet, val : ValSet]
    [] k = "skvdel" -> UNION {[op : {"skvdel"}, s : {s}, key : DOMAIN streams[s].kv] : s \in Streams}
    [] k = "jkvdel" -> UNION {[op : {"jkvdel"}, j : {j}, key : DOMAIN jobs[j].kv] : j \in HaveJobs}
    [] k = "rename" -> [op : {"rename"}, j : {j \in HaveJobs : \A s \in Streams : streams[s].g # j}, name : Evs]
    [] k = "ckv" -> [op : {"ckv"}, m : MapIds, key : KeySet, val : ValSet]
    [] k = "newjob" -> IF Cardinality(DOMAIN jobs) >= MaxJobs THEN {}
                       ELSE [op : {"newjob"}, s : Streams, j : {Cardinality(DOMAIN jobs) + 1}, name : Evs]
    [] k = "adv" -> [op : {"adv"}, n : Advs]
    [] k = "runjob" -> IF Len(runs) >= MaxRuns THEN {} ELSE [op : {"runjob"}, j : HaveJobs]
    [] k = "runstream" -> IF Len(runs) >= MaxRuns \/ Cardinality(DOMAIN jobs) >= MaxJobs THEN {}
                          ELSE [op : {"runstream"}, s : Streams, j : {Cardinality(DOMAIN jobs) + 1}, name : Evs]
    [] k = "runend" -> IF runs = <<>> THEN {} ELSE [op : {"runend"}, out : {"ok", "error", "panic"}, text : {"p"}, newref : {"p"}, stack : {"S"}]
    [] k = "event" -> {R0(j, k, e, "", "", "", kv, NoArg) : j \in HaveJobs, e \in Evs, kv \in KvArgs}
    [] k = "timing" -> {R0(j, k, e, "7", "", "", kv, NoArg) : j \in HaveJobs, e \in Evs, kv \in KvArgs}
    [] k = "gauge" -> {R0(j, k, e, "", "1.5", "", kv, NoArg) : j \in HaveJobs, e \in Evs, kv \in KvArgs}
    [] k = "complete" -> {R0(j, k, "", "", "", st, kv, NoArg) : j \in HaveJobs, st \in {"success", "validation_error", "panic", "error", "junk", "none"}, kv \in KvArgs}
    [] k = "err" -> {R0(j, k, e, "", "", "", kv, a) : j \in HaveJobs, e \in Evs, kv \in KvArgs, a \in RawArg \cup MutedArg \cup RetArgs}

Step(o) ==
  CASE o.op = "rec" -> Record(o)
    [] o.op = "addsink" -> AddSink(o)
    [] o.op = "skv" -> StreamKv(o)
    [] o.op = "jkv" -> JobKv(o)
    [] o.op = "skvdel" -> StreamKvDel(o)
    [] o.op = "jkvdel" -> JobKvDel(o)
    [] o.op = "rename" -> Rename(o)
    [] o.op = "ckv" -> CallerKv(o)
    [] o.op = "newstream" -> NewStream(o)
    [] o.op = "newjob" -> NewJob(o)
    [] o.op = "adv" -> Advance(o)
    [] o.op = "runjob" -> RunJob(o)
    [] o.op = "runstream" -> RunStream(o)
    [] o.op = "runend" -> RunEnd(o)

InitMaps == [m \in MapIds |-> NoMap]
Init0 == /\ now = 0 /\ streams = << >> /\ jobs = << >> /\ errs = << >> /\ nret = 0 /\ runs = <<>> /\ log = <<>>
Init == /\ now = 0 /\ errs = << >> /\ nret = 0 /\ runs = <<>> /\ log = <<>>
        /\ maps = InitMaps
        \* stream number i (its id) starts with job number i as its own
        /\ streams = [s \in Streams |-> [sinks |-> <<>>, kv |-> NoMap, g |-> s]]
        /\ jobs = [s \in Streams |-> [s |-> s, name |-> "general", kv |-> NoMap, start |-> 0, handle |-> TRUE]]
Next == \E k \in OpKinds : \E o \in OpsFor(k) : Step(o)
Bound == now <= MaxNow /\ Len(log) <= MaxLog /\ nret <= MaxRet

(* --- properties of the model -------------------------------------------- *)
Sel(seq, P(_)) == SelectSeq(seq, P)
(* C01: a sink only ever hears from streams it is attached to, and the sinks *)
(* of one stream hear exactly the same recordings from the moment the later  *)
(* one was attached.                                                         *)
InvAttached == \A i \in 1..Len(log) : \E s \in Streams : \E n \in 1..Len(streams[s].sinks) : streams[s].sinks[n] = log[i].sink
Bare(d) == [m |-> d.m, job |-> d.job, ev |-> d.ev, v |-> d.v, g |-> d.g, st |-> d.st, kv |-> d.kv, e |-> d.e]
OnlyOn(k, s) == \A t \in Streams : (t # s) => \A n \in 1..Len(streams[t].sinks) : streams[t].sinks[n] # k
Heard(k) == LET f == Sel(log, LAMBDA d : d.sink = k) IN [i \in 1..Len(f) |-> Bare(f[i])]
IsSuffix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, Len(b) - Len(a) + 1, Len(b)) = a
InvSameStory ==
  \A s \in Streams : \A a, b \in 1..Len(streams[s].sinks) :
     (a < b /\ OnlyOn(streams[s].sinks[a], s) /\ OnlyOn(streams[s].sinks[b], s)) => IsSuffix(Heard(streams[s].sinks[b]), Heard(streams[s].sinks[a]))
(* C03: an unmuted error is delivered as not yet reported by exactly one recording: the first *)
InvEmittedOnce ==
  \A i, k \in 1..Len(log) :
     (i < k /\ log[i].m = "err" /\ log[k].m = "err" /\ log[i].e.ref = log[k].e.ref /\ log[i].e.kind = "unmuted" /\ log[i].e.ref # "p")
       => /\ log[k].e.cause = log[i].e.cause /\ log[k].e.site = log[i].e.site
          /\ (log[i].e.emitted => log[k].e.emitted)
          /\ (log[i].sink = log[k].sink => log[k].e.emitted)
InvMuted == \A i \in 1..Len(log) : (log[i].m = "err" /\ log[i].e.ref = "mu1") => log[i].e.kind = "muted"
(* C02/C03: recording changes nothing but the error registry *)
RecordPure == [][(\E k \in Ms : \E o \in OpsFor(k) : Record(o)) => UNCHANGED <<maps, streams, jobs>>]_svars
(* C04: completions carry a non-negative age; leaving a run delivers one completion per sink, last *)
RunOne ==
  [][(Len(runs') < Len(runs)) =>
       LET j == runs[Len(runs)]
           n == Len(streams[jobs[j].s].sinks)
           new == SubSeq(log', Len(log) + 1, Len(log'))
           cs == Sel(new, LAMBDA d : d.m = "complete")
       IN Len(cs) = n /\ SubSeq(new, Len(new) - n + 1, Len(new)) = cs]_svars
=============================================================================
