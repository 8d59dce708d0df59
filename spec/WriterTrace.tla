---------------------------- MODULE WriterTrace -----------------------------
EXTENDS Writer, Json, IOUtils
CONSTANT FOCUS
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
MicroFromTrace == Traces[1].cfg.micro
TInit == tid \in 1..Len(Traces) /\ l = 1
C == Traces[tid].cfg
Evt == Traces[tid].ev[l]
TNext ==
  \/ /\ l <= Len(Traces[tid].ev)
     /\ CASE Evt.op = "emit" -> OneEach(<<Evt.e>>, Evt.ws, C.json)
          [] Evt.op = "storm" -> OneEach(Evt.es, Evt.ws, C.json)
          [] OTHER -> FALSE
     /\ l' = l + 1 /\ tid' = tid
  \/ l > Len(Traces[tid].ev) /\ UNCHANGED <<tid, l>>
=============================================================================
