---------------------------- MODULE RuntimeTrace ----------------------------
EXTENDS Runtime, Json, IOUtils
CONSTANT FOCUS
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
C == Traces[tid].cfg
Sel == ToSet(C.sel)
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ RInit
Evt == Traces[tid].ev[l]
(* exactly these gauges, each within its actual figure's bounds              *)
Reported(due) ==
  /\ Evt.other = 0
  /\ {<<Evt.gs[i].name, Evt.gs[i].at>> : i \in 1..Len(Evt.gs)} = due
  /\ Len(Evt.gs) = Cardinality(due)
  /\ \A i \in 1..Len(Evt.gs) : LET g == Evt.gs[i] IN g.lo <= g.v /\ g.v <= g.hi
TNext ==
  \/ /\ l <= Len(Traces[tid].ev)
     /\ CASE Evt.op = "start" -> mode # "running" /\ mode' = "running" /\ t0' = now /\ now' = now /\ Reported({})
          [] Evt.op = "stop" -> mode' = "stopped" /\ UNCHANGED <<t0, now>> /\ Evt.ret /\ Evt.left = 0 /\ Reported({})
          [] Evt.op = "report" -> Reported(Due(Sel, {now})) /\ UNCHANGED rvars
          [] Evt.op = "adv" -> Reported(Due(Sel, Ticks(now, now + Evt.dt, C.interval))) /\ now' = now + Evt.dt /\ UNCHANGED <<mode, t0>>
          [] OTHER -> FALSE
     /\ l' = l + 1 /\ tid' = tid
  \/ l > Len(Traces[tid].ev) /\ UNCHANGED <<rvars, tid, l>>
=============================================================================
