------------------------------ MODULE LifeTrace -----------------------------
(* Recorded runs against the promises of Life, over what can be observed:    *)
(* the stop's call and return, outputs, goroutines left.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS FOCUS
VARIABLES tid, l, spc
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ spc = "idle"
Ev == Traces[tid].ev
RECURSIVE After(_, _)
After(s, xs) ==        \* the stop's state after the observations, or "bad"
  IF xs = <<>> THEN s
  ELSE LET x == xs[1] IN
       After(CASE s = "bad" -> "bad"
               [] x.t = "call" /\ s = "idle" -> "called"
               [] x.t = "ret" /\ s = "called" -> "returned"
               [] x.t = "out" /\ s # "returned" -> s             \* QuietAfterStop
               [] OTHER -> "bad", Tail(xs))
TNext ==
  \/ /\ l <= Len(Ev)
     /\ Ev[l].op \in {"emit", "use", "adv", "stop", "storm", "settle"}
     /\ spc' = After(spc, Ev[l].obs) /\ spc' # "bad"
     /\ Ev[l].op = "settle" => spc' = "returned" /\ Ev[l].left = 0      \* StopReturns, GoneAfterStop
     /\ l' = l + 1 /\ tid' = tid
  \/ l > Len(Ev) /\ UNCHANGED <<tid, l, spc>>
=============================================================================
