---------------------------- MODULE DaemonTrace -----------------------------
EXTENDS Daemon, Json, IOUtils
CONSTANT FOCUS
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
C == Traces[tid].cfg
TInit == tid \in 1..Len(Traces) /\ l = 1
Evt == Traces[tid].ev[l]
TNext ==
  \/ /\ l <= Len(Traces[tid].ev)
     /\ CASE Evt.op = "skip" -> TRUE
          [] Evt.op = "exit" -> C.none /\ Evt.code = 1 /\ Evt.said /\ ~Evt.started
          [] Evt.op = "hosts" -> ~C.none /\ Evt.answers /\ Evt.rows = C.all /\ Evt.inst
          [] Evt.op = "start" -> Evt.self = C.self /\ Evt.server = C.server /\ Evt.given = C.given
          [] Evt.op = "settled" -> Evt.alive /\ Evt.ok = C.well /\ Evt.counts = C.counts /\ Evt.own /\ Evt.logged
          [] Evt.op = "self" -> Evt.answers /\ Evt.starting
          [] OTHER -> FALSE
     /\ l' = l + 1 /\ tid' = tid
  \/ l > Len(Traces[tid].ev) /\ UNCHANGED <<tid, l>>
=============================================================================
