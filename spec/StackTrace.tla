----------------------------- MODULE StackTrace -----------------------------
EXTENDS Stack, Json, IOUtils
CONSTANT FOCUS
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
C == Traces[tid].cfg
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ SInit
Evt == Traces[tid].ev[l]
Fr(e) == [pkg |-> e.pkg, name |-> e.name, file |-> e.file, line |-> e.line]
Frs(s) == [i \in 1..Len(s) |-> Fr(s[i])]
TNext ==
  \/ /\ l <= Len(Traces[tid].ev)
     /\ CASE Evt.op = "enter" -> Enter(Evt.pkg, Evt.name)
          [] Evt.op = "leave" -> Leave
          [] Evt.op = "at" -> At(Evt.file, Evt.line)
          [] Evt.op = "bump" -> Bump(Evt.n)
          [] Evt.op = "capture" -> Capture(Frs(C.base), Evt.t, Evt.skip, Evt.max)
          [] Evt.op = "read" -> /\ Evt.t \in DOMAIN kept /\ Frs(Evt.frames) = kept[Evt.t] /\ Evt.text = Text(kept[Evt.t])
                                /\ UNCHANGED svars
          [] OTHER -> FALSE
     /\ l' = l + 1 /\ tid' = tid
  \/ l > Len(Traces[tid].ev) /\ UNCHANGED <<svars, tid, l>>
=============================================================================
