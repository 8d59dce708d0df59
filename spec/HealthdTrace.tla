---------------------------- MODULE HealthdTrace ----------------------------
(* Accepts a recorded run of the real healthd iff Healthd allows it.         *)
EXTENDS Healthd, Json, IOUtils
CONSTANT FOCUS
VARIABLES tid, l,
          owe,   \* hosts whose poll has been answered: host |-> the completion it owes
          nerr,  \* step |-> poll errors recorded and not yet completed
          nrec   \* recalculations completed
PollErrs == {"poll.client.get", "poll.ioutil.read_all", "poll.json.unmarshall", "poll.validate"}
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
C == Traces[tid].cfg
Ev == Traces[tid].ev
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ HInit(1..C.n) /\ owe = EmptyMap /\ nerr = [s \in PollErrs |-> 0] /\ nrec = 0
Evt == Ev[l]
Fine(a) == a.back /\ a.code = 200 /\ a.ok /\ a.id = C.id /\ (FOCUS = "C19" => a.json)
DataFocus == FOCUS \in {"C18", "C20"}
(* C22: what healthd records about its own work                              *)
RouteOK(r) ==
  /\ r.back
  /\ IF r.known
     THEN /\ Len(r.self) = 2
          /\ LET a == r.self[1] b == r.self[2] IN
             /\ a.m = "event" /\ a.job = r.path /\ a.ev = "starting_request" /\ a.kv = [path |-> r.path]
             /\ b.m = "complete" /\ b.job = r.path /\ b.st = (IF r.code < 400 THEN "success" ELSE IF r.code = 422 THEN "validation_error" ELSE IF r.code < 500 THEN "junk" ELSE "error")
             /\ b.kv = [path |-> r.path, code |-> r.cs]
     ELSE r.self = <<>>
SelfOK(e) ==
  CASE e.job = "poll" /\ e.m = "err" -> e.ev \in PollErrs /\ nerr[e.ev] < Cardinality({h \in DOMAIN owe : owe[h].step = e.ev})
    [] e.job = "poll" /\ e.m = "complete" ->
         /\ e.h \in DOMAIN owe /\ e.kv = EmptyMap
         /\ e.ms = owe[e.h].ms
         /\ e.st \in owe[e.h].st
         /\ e.st = "error" => nerr[owe[e.h].step] > 0
    [] e.job = "recalculate" -> e.m = "complete" /\ e.st = "success"
    [] OTHER -> TRUE
Self(e) ==
  /\ owe' = IF e.job = "poll" /\ e.m = "complete" THEN [h \in (DOMAIN owe) \ {e.h} |-> owe[h]] ELSE owe
  /\ nerr' = IF e.job # "poll" THEN nerr ELSE IF e.m = "err" /\ e.ev \in PollErrs THEN [nerr EXCEPT ![e.ev] = @ + 1]
             ELSE IF e.m = "complete" /\ e.st = "error" /\ e.h \in DOMAIN owe /\ owe[e.h].step \in PollErrs THEN [nerr EXCEPT ![owe[e.h].step] = @ - 1] ELSE nerr
  /\ nrec' = IF e.job = "recalculate" /\ e.m = "complete" THEN nrec + 1 ELSE nrec
Owed(e) == [ms |-> e.t - e.pt, step |-> e.step, st |-> IF e.err = "yes" THEN {"error"} ELSE {"success"}]
Rounds == LET d == {np[h] : h \in DOMAIN np} IN IF DOMAIN out # {} THEN 0 ELSE CHOOSE x \in d : \A y \in d : x <= y
SelfQuiet == owe = EmptyMap /\ \A s \in PollErrs : nerr[s] = 0
svs == <<owe, nerr, nrec>>
QueryOK(e) ==
  /\ FOCUS # "C12" => e.agg.back
  /\ FOCUS = "C18" => Fine(e.agg) /\ (DOMAIN out = {} => e.agg.dur = ilen)
  /\ FOCUS = "C19" =>
       /\ Fine(e.agg) /\ Fine(e.overall) /\ Fine(e.jobs)
       /\ OverallOK(e.agg.list, e.overall) /\ FullOK(e.jobs.rows, e.overall)
       /\ \A i \in 1..Len(e.more) : Fine(e.more[i]) /\ SubOK(e.jobs.rows, e.more[i])
       /\ \A i \in 1..Len(e.paths) : e.paths[i].back /\ e.paths[i].code = 404 /\ e.paths[i].ok
  /\ FOCUS = "C22" => (\A i \in 1..Len(e.reqs) : RouteOK(e.reqs[i])) /\ (DOMAIN out = {} => nrec >= Rounds)
  /\ FOCUS = "C20" => Fine(e.hosts) /\ HostsOK(C.order, e.hosts.rows) /\ PollsOnTime(e.t)
TStep ==
  CASE Evt.op = "poll" -> (FOCUS = "C20" => PollOK(Evt.h, Evt.t)) /\ (FOCUS = "C12" => stopped # "yes") /\ PollStart(Evt.h, Evt.t) /\ UNCHANGED svs
    [] Evt.op = "answer" -> Answer(Evt) /\ owe' = Put(owe, Evt.h, Owed(Evt)) /\ UNCHANGED <<nerr, nrec>>
    [] Evt.op = "self" -> (FOCUS = "C22" => SelfOK(Evt)) /\ Self(Evt) /\ UNCHANGED hvars
    [] Evt.op = "query" -> QueryOK(Evt) /\ (IF DataFocus THEN Fine(Evt.agg) /\ Shown(Evt.t, Evt.agg.list) ELSE UNCHANGED hvars) /\ UNCHANGED svs
    [] Evt.op = "storm" -> Evt.bad = <<>> /\ UNCHANGED hvars /\ UNCHANGED svs     \* requests at the same time are all answered
    [] Evt.op = "stopcall" -> stopped' = "called" /\ UNCHANGED <<base, pend, ilen, out, np, stat, last>> /\ UNCHANGED svs
    [] Evt.op = "stopret" -> (FOCUS = "C12" => Evt.back) /\ stopped' = "yes" /\ UNCHANGED <<base, pend, ilen, out, np, stat, last>> /\ UNCHANGED svs
    [] Evt.op = "settle" -> (FOCUS = "C22" => SelfQuiet) /\ (FOCUS = "C12" => Evt.closed /\ Evt.left = 0 /\ Evt.waiting = 0) /\ UNCHANGED hvars /\ UNCHANGED svs
    [] OTHER -> FALSE
TNext ==
  \/ l <= Len(Ev) /\ TStep /\ l' = l + 1 /\ tid' = tid
  \/ l > Len(Ev) /\ UNCHANGED <<hvars, svs, tid, l>>
=============================================================================
