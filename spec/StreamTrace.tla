---------------------------- MODULE StreamTrace ----------------------------
(* Accepts a recorded execution of the real streams iff each call delivered *)
(* and returned what Stream expects.                                        *)
EXTENDS Stream, Json, IOUtils
CONSTANT FOCUS
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
tvars == <<svars, tid, l>>
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ Init0 /\ maps = Traces[tid].cfg.maps
Evt == Traces[tid].ev[l]

P01(d) == <<d.sink, d.m, d.job, d.ev, IF d.m = "complete" THEN "" ELSE d.v, d.g, d.st, d.e.text>>
P04(d) == <<d.sink, d.m, d.job, d.ev, d.v, d.st, d.e.text, d.e.kind>>
SamePer(P(_), a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : P(a[i]) = P(b[i])
OnlyErrs(s) == SelectSeq(s, LAMBDA d : d.m = "err")
OnlyDone(s) == SelectSeq(s, LAMBDA d : d.m = "complete")

DelOK(o, exp) ==
  CASE FOCUS = "C01" -> SamePer(P01, o.del, exp)
    [] FOCUS = "C02" -> Len(o.del) = Len(exp) => \A i \in 1..Len(exp) : o.del[i].kv = exp[i].kv
    [] FOCUS = "C03" -> LET a == OnlyErrs(o.del) b == OnlyErrs(exp)
                        IN Len(a) = Len(b) => \A i \in 1..Len(a) : a[i].sink = b[i].sink => a[i].e = b[i].e
    [] FOCUS = "C04" -> CASE o.op = "runend" -> /\ SamePer(P04, o.del, exp)
                                                /\ \A i \in 1..Len(exp) : exp[i].m = "err" =>
                                                     "stack" \in DOMAIN o.del[i].kv /\ o.del[i].kv["stack"] = exp[i].kv["stack"]
                          [] o.op = "rec" /\ o.m = "complete" -> SamePer(P04, OnlyDone(o.del), OnlyDone(exp))
                          [] o.op \in {"runjob", "runstream"} -> o.del = <<>>
                          [] OTHER -> TRUE
RetOK(o) ==
  FOCUS = "C03" => IF o.m # "err" THEN TRUE
                   ELSE LET e == Wrapped(o) IN
                        /\ o.arg.kind = "raw" => o.newref \notin DOMAIN errs     \* a new wrapper
                        /\ o.ret = [ref |-> e.ref, kind |-> e.kind, cause |-> e.cause, text |-> e.text, site |-> e.site]
RunRetOK(o) ==
  FOCUS = "C04" => /\ ~ o.escaped
                   /\ CASE o.out = "ok"    -> o.ret.nil
                        [] o.out = "error" -> ~ o.ret.nil /\ o.ret.ref = o.eref
                        [] o.out = "panic" -> ~ o.ret.nil /\ o.ret.text = o.text
MapsOK(o) == FOCUS = "C02" =>
  /\ o.maps = maps'
  /\ \A s \in DOMAIN streams' : o.sk[ToString(s)] = streams'[s].kv
  /\ \A j \in DOMAIN jobs' : jobs'[j].handle => o.jk[ToString(j)] = jobs'[j].kv

TStep ==
  CASE Evt.op = "rec" -> Record(Evt) /\ DelOK(Evt, Expect(Evt)) /\ RetOK(Evt) /\ MapsOK(Evt)
    [] Evt.op = "runend" -> RunEnd(Evt) /\ DelOK(Evt, RunEndExpect(Evt)) /\ RunRetOK(Evt) /\ MapsOK(Evt)
    [] Evt.op \in {"newstream", "addsink", "skv", "jkv", "skvdel", "jkvdel", "rename", "ckv", "newjob", "adv", "runjob", "runstream"} ->
         Step(Evt) /\ DelOK(Evt, <<>>) /\ MapsOK(Evt)
    \* the story of the next of several concurrent goroutines begins
    [] Evt.op = "reset" -> /\ now' = 0 /\ streams' = << >> /\ jobs' = << >> /\ errs' = << >> /\ nret' = 0 /\ runs' = <<>> /\ log' = <<>>
                           /\ maps' = Evt.maps
    [] OTHER -> FALSE
TNext ==
  \/ l <= Len(Traces[tid].ev) /\ TStep /\ l' = l + 1 /\ tid' = tid
  \/ l > Len(Traces[tid].ev) /\ UNCHANGED tvars
=============================================================================
