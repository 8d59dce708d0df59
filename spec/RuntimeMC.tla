----------------------------- MODULE RuntimeMC ------------------------------
(* The reporter's goroutine, its ticker and the stop handshake.              *)
EXTENDS Runtime
CONSTANTS Sel, Interval, MaxTime
VARIABLES pc,       \* the reporter's goroutine: "off", "select", "report", "done"
          tick,     \* the ticker's channel (buffer of one)
          spc,      \* the stopping goroutine: "idle", "sending", "waiting", "returned"
          reps      \* reports made: sequence of [m: metrics, t: time, after: made after stop returned]
mcvars == <<rvars, pc, tick, spc, reps>>
MCInit == RInit /\ pc = "off" /\ tick = FALSE /\ spc = "idle" /\ reps = <<>>
Start == mode = "new" /\ mode' = "running" /\ t0' = now /\ pc' = "select" /\ UNCHANGED <<now, tick, spc, reps>>
(* virtual time passes only when nothing else can happen                     *)
Time == /\ now < MaxTime /\ pc # "report" /\ ~(pc = "select" /\ tick) /\ now' = now + 1
        /\ tick' = (tick \/ (mode = "running" /\ (now' - t0) % Interval = 0))
        /\ UNCHANGED <<mode, t0, pc, spc, reps>>
TakeTick == pc = "select" /\ tick /\ tick' = FALSE /\ pc' = "report" /\ UNCHANGED <<rvars, spc, reps>>
Report == pc = "report" /\ pc' = "select" /\ reps' = Append(reps, [m |-> Selected(Sel), t |-> now, after |-> spc = "returned"]) /\ UNCHANGED <<rvars, tick, spc>>
StopCall == mode = "running" /\ spc = "idle" /\ spc' = "sending" /\ UNCHANGED <<rvars, pc, tick, reps>>
StopTaken == spc = "sending" /\ pc = "select" /\ spc' = "waiting" /\ pc' = "ending" /\ UNCHANGED <<rvars, tick, reps>>
Ended == pc = "ending" /\ spc = "waiting" /\ pc' = "done" /\ spc' = "returned" /\ mode' = "stopped" /\ tick' = FALSE /\ UNCHANGED <<t0, now, reps>>
MCNext == Start \/ Time \/ TakeTick \/ Report \/ StopCall \/ StopTaken \/ Ended
MCSpec == MCInit /\ [][MCNext]_mcvars /\ WF_mcvars(TakeTick \/ Report) /\ SF_mcvars(StopTaken) /\ WF_mcvars(Ended)
InvSchedule == \A i \in 1..Len(reps) : (reps[i].t - t0) % Interval = 0 /\ reps[i].m = Selected(Sel) /\ ~reps[i].after
InvOnce == \A i, j \in 1..Len(reps) : i # j => reps[i].t # reps[j].t
InvComplete == (spc = "idle" /\ pc = "select" /\ ~tick) => {reps[i].t : i \in 1..Len(reps)} = Ticks(t0, now, Interval)
StopReturns == (spc = "sending") ~> (spc = "returned")
=============================================================================
