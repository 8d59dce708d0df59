----------------------------- MODULE MergeTrace -----------------------------
EXTENDS Merge, Json, IOUtils
CONSTANT FOCUS
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
tvars == <<mvars, tid, l>>
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ Init
Evt == Traces[tid].ev[l]
Prev(r) == IF l = 1 THEN 0 ELSE Traces[tid].ev[l - 1].obs[r].serial
(* After each operation every register shows exactly what it should: the    *)
(* target its new value, all others (and later all clones) their old one.   *)
ObsOK(o) ==
  /\ \A r \in Regs : Content(o.obs[r]) = regs'[r].a
  /\ \A r \in Regs :
       CASE o.op = "merge" /\ o.r = r -> o.obs[r].serial > Prev(r)
         [] o.op = "clone" /\ o.r = r -> o.obs[r].serial = Prev(o.q)
         [] o.op \in {"take", "new"} /\ o.r = r -> o.obs[r].serial >= 0
         [] OTHER -> o.obs[r].serial = Prev(r)
  /\ o.op = "clone" => o.obs[o.r].start = o.obs[o.q].start
  /\ l > 1 => \A r \in Regs : (o.op \in {"clone", "take", "new"} /\ o.r = r) \/ o.obs[r].start = Traces[tid].ev[l - 1].obs[r].start
TNext ==
  \/ /\ l <= Len(Traces[tid].ev)
     /\ Evt.op \in {"emit", "take", "new", "clone", "merge", "poke"}
     /\ Step(Evt) /\ ObsOK(Evt) /\ l' = l + 1 /\ tid' = tid
  \/ l > Len(Traces[tid].ev) /\ UNCHANGED tvars
=============================================================================
