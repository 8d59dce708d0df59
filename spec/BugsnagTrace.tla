---------------------------- MODULE BugsnagTrace ----------------------------
(* Each sink attached must post exactly what is due, in order. Trace events  *)
(* carry the posts seen since the last one, per sink.                        *)
EXTENDS Bugsnag, Json, IOUtils
CONSTANT FOCUS
VARIABLES tid, l, np     \* np[s]: posts of sink s seen
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
C == Traces[tid].cfg
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ BInit /\ np = [s \in 1..2 |-> 0]
Evt == Traces[tid].ev[l]
KvSet(s) == {<<s[i][1], s[i][2]>> : i \in 1..Len(s)}
Match(w, p, s) == /\ p.ok                                   \* a well-formed POST with one event and one exception
                  /\ p.key = C.keys[s] /\ p.stage = C.stages[s] /\ p.host = C.hosts[s] /\ p.url = C.urls[s] /\ p.version = C.vers[s]
                  /\ p.context = w.job /\ p.class = w.ev /\ p.msg = w.msg /\ p.rurl = w.rurl /\ p.rform = w.rform
                  /\ Len(p.kvs) = Len(w.kvs) /\ KvSet(p.kvs) = KvSet(w.kvs)
                  /\ p.stack = w.stack
Posts(s) == IF s <= Len(Evt.posts) THEN Evt.posts[s] ELSE <<>>
Seen == /\ \A s \in 1..2 : /\ np[s] + Len(Posts(s)) <= Len(want')
                           /\ \A i \in 1..Len(Posts(s)) : Match(want'[np[s] + i], Posts(s)[i], s)
        /\ np' = [s \in 1..2 |-> np[s] + Len(Posts(s))]
TNext ==
  \/ /\ l <= Len(Traces[tid].ev)
     /\ CASE Evt.op = "rec" -> Record(Evt) /\ Seen
          [] Evt.op = "burst" ->
               /\ want' = want \o Evt.ns /\ em' = em \cup {Evt.x + i - 1 : i \in 1..Len(Evt.ns)} /\ mut' = mut /\ Seen
          [] Evt.op \in {"other", "kvset", "mapset", "adv", "script"} -> UNCHANGED bvars /\ Seen
          [] Evt.op = "settle" -> /\ UNCHANGED bvars /\ Seen
                                  /\ \A s \in 1..C.n : np'[s] = Len(want)        \* nothing lost
                                  /\ Evt.blocked = 0                             \* no recorder left waiting
          [] OTHER -> FALSE
     /\ l' = l + 1 /\ tid' = tid
  \/ l > Len(Traces[tid].ev) /\ UNCHANGED <<bvars, np, tid, l>>
=============================================================================
