---------------------------- MODULE StatsdTrace -----------------------------
EXTENDS Statsd, Json, IOUtils
CONSTANT FOCUS
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ SInit
C == Traces[tid].cfg
Evt == Traces[tid].ev[l]
TNext ==
  \/ /\ l <= Len(Traces[tid].ev)
     /\ CASE Evt.op = "emit" -> EmitSeen(C, Evt)
          [] Evt.op = "drain" -> DrainSeen(C, Evt)
          [] Evt.op = "busy" -> BusySeen(C, Evt)
          [] Evt.op = "adv" -> AdvSeen(C, Evt)
          [] OTHER -> FALSE
     /\ l' = l + 1 /\ tid' = tid
  \/ l > Len(Traces[tid].ev) /\ UNCHANGED <<svars, tid, l>>
=============================================================================
