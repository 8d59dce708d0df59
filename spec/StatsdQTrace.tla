---------------------------- MODULE StatsdQTrace ----------------------------
(* Checks recorded runs of the concurrent StatsD driver against the promises *)
(* of StatsdQ (same names), stated over what can be observed: calls begun,   *)
(* calls returned, lines received.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS FOCUS
VARIABLES tid, l, i,  \* i: position within the observations of event l
          started, done, sent, dst, need, sst, gatedT
tv == <<started, done, sent, dst, need, sst, gatedT>>
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Recs == 0..3
Drs == 1..12
TInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ i = 1
         /\ started = [r \in Recs |-> 0] /\ done = started /\ sent = started
         /\ dst = [d \in Drs |-> "idle"] /\ need = [d \in Drs |-> [r \in Recs |-> 0]]
         /\ sst = "idle" /\ gatedT = FALSE
Ev == Traces[tid].ev
Obs(x) ==
  CASE x.t = "call" /\ x.c = "rec" ->     \* recorder x.r is about to make n recordings
         started' = [started EXCEPT ![x.r] = @ + x.n] /\ UNCHANGED <<done, sent, dst, need, sst, gatedT>>
    [] x.t = "ret" /\ x.c = "rec" ->
         done' = [done EXCEPT ![x.r] = @ + x.n] /\ done'[x.r] <= started[x.r] /\ UNCHANGED <<started, sent, dst, need, sst, gatedT>>
    [] x.t = "call" /\ x.c = "drain" ->   \* x.done[r+1]: recordings of r returned by then
         /\ dst[x.d] = "idle" /\ dst' = [dst EXCEPT ![x.d] = "wait"]
         /\ need' = [need EXCEPT ![x.d] = [r \in Recs |-> x.done[r + 1]]]
         /\ UNCHANGED <<started, done, sent, sst, gatedT>>
    [] x.t = "ret" /\ x.c = "drain" ->
         /\ dst[x.d] = "wait" /\ dst' = [dst EXCEPT ![x.d] = "ret"]
         /\ sst = "idle" => \A r \in Recs : sent[r] >= need[x.d][r]              \* InvDrained
         /\ UNCHANGED <<started, done, sent, need, sst, gatedT>>
    [] x.t = "call" /\ x.c = "stop" -> sst = "idle" /\ sst' = "wait" /\ UNCHANGED <<started, done, sent, dst, need, gatedT>>
    [] x.t = "ret" /\ x.c = "stop" -> sst = "wait" /\ sst' = "ret" /\ UNCHANGED <<started, done, sent, dst, need, gatedT>>
    [] x.t = "got" ->                      \* a run of lines from..to of recorder r
         /\ sst # "ret"                                                          \* QuietAfterStop
         /\ x.r \in Recs /\ x.from = sent[x.r] + 1 /\ x.to <= started[x.r]       \* InvOrder
         /\ sent' = [sent EXCEPT ![x.r] = x.to]
         /\ UNCHANGED <<started, done, dst, need, sst, gatedT>>
    [] x.t = "big" -> FALSE                \* a datagram over the limit, or not of whole lines
    [] OTHER -> FALSE
EndOf(e) ==
  CASE e.op = "gate" -> gatedT' = TRUE /\ UNCHANGED <<started, done, sent, dst, need, sst>>
    [] e.op = "release" -> gatedT' = FALSE /\ UNCHANGED <<started, done, sent, dst, need, sst>>
    [] e.op = "settle" ->
         /\ ~gatedT
         /\ \A d \in Drs : dst[d] # "wait"                                       \* DrainsReturn
         /\ sst # "wait"                                                         \* StopReturns
         /\ sst = "idle" => \A r \in Recs : done[r] = started[r] /\ sent[r] = done[r]   \* AllSent, InvKept
         /\ sst = "ret" => e.left = 0                                            \* no goroutine left
         /\ UNCHANGED tv
    [] e.op \in {"emit", "drain", "adv", "storm", "stop"} -> UNCHANGED tv
    [] OTHER -> FALSE
TNext ==
  \/ /\ l <= Len(Ev) /\ "obs" \in DOMAIN Ev[l] /\ i <= Len(Ev[l].obs)
     /\ Obs(Ev[l].obs[i]) /\ i' = i + 1 /\ UNCHANGED <<tid, l>>
  \/ /\ l <= Len(Ev) /\ ("obs" \in DOMAIN Ev[l] => i > Len(Ev[l].obs))
     /\ EndOf(Ev[l]) /\ i' = 1 /\ l' = l + 1 /\ UNCHANGED tid
  \/ l > Len(Ev) /\ UNCHANGED <<tv, tid, l, i>>
=============================================================================
