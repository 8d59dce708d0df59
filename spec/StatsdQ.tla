------------------------------ MODULE StatsdQ -------------------------------
(* The StatsD sink's command loop (statsd_sink.go: loop, Drain, Stop) with   *)
(* concurrent recorders, drains and one stop. The environment may stall the  *)
(* loop at any moment (gate).                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Recs, N, Drains, Cap, BufMax, STOPS
VARIABLES started, done,   \* recorder |-> recordings begun / returned
          q,               \* command channel
          buf,             \* lines of the datagram under construction
          out,             \* datagrams sent
          dst, need,       \* drain |-> state, recordings returned before its call
          sst,             \* stop's state
          stopped, gated
qvars == <<started, done, q, buf, out, dst, need, sst, stopped, gated>>
QInit == /\ started = [r \in Recs |-> 0] /\ done = [r \in Recs |-> 0] /\ q = <<>> /\ buf = <<>> /\ out = <<>>
         /\ dst = [d \in Drains |-> "idle"] /\ need = [d \in Drains |-> [r \in Recs |-> 0]]
         /\ sst = "idle" /\ stopped = FALSE /\ gated = FALSE
EmitCall(r) == /\ started[r] = done[r] /\ started[r] < N /\ sst = "idle"
               /\ started' = [started EXCEPT ![r] = @ + 1]
               /\ UNCHANGED <<done, q, buf, out, dst, need, sst, stopped, gated>>
EmitSend(r) == /\ started[r] > done[r] /\ Len(q) < Cap
               /\ q' = Append(q, [k |-> "line", i |-> r, n |-> started[r]])
               /\ done' = [done EXCEPT ![r] = @ + 1]
               /\ UNCHANGED <<started, buf, out, dst, need, sst, stopped, gated>>
DrainCall(d) == /\ dst[d] = "idle"
                /\ dst' = [dst EXCEPT ![d] = "send"] /\ need' = [need EXCEPT ![d] = done]
                /\ UNCHANGED <<started, done, q, buf, out, sst, stopped, gated>>
DrainSend(d) == /\ dst[d] = "send" /\ Len(q) < Cap
                /\ q' = Append(q, [k |-> "drain", i |-> d, n |-> 0]) /\ dst' = [dst EXCEPT ![d] = "wait"]
                /\ UNCHANGED <<started, done, buf, out, need, sst, stopped, gated>>
DrainGiveUp(d) == /\ dst[d] \in {"send", "wait"} /\ stopped
                  /\ dst' = [dst EXCEPT ![d] = "ret"]
                  /\ UNCHANGED <<started, done, q, buf, out, need, sst, stopped, gated>>
StopCall == /\ STOPS /\ sst = "idle" /\ sst' = "send" /\ UNCHANGED <<started, done, q, buf, out, dst, need, stopped, gated>>
StopSend == /\ sst = "send" /\ Len(q) < Cap /\ sst' = "wait" /\ q' = Append(q, [k |-> "stop", i |-> 0, n |-> 0])
            /\ UNCHANGED <<started, done, buf, out, dst, need, stopped, gated>>
Flushed(b) == IF b = <<>> THEN out ELSE Append(out, b)
Loop == /\ ~stopped /\ ~gated /\ q # <<>>
        /\ q' = Tail(q)
        /\ LET c == Head(q) IN
           CASE c.k = "line" ->
                  /\ IF Len(buf) = BufMax THEN out' = Flushed(buf) /\ buf' = <<c>> ELSE out' = out /\ buf' = Append(buf, c)
                  /\ UNCHANGED <<dst, sst, stopped>>
             [] c.k = "drain" -> /\ out' = Flushed(buf) /\ buf' = <<>> /\ dst' = [dst EXCEPT ![c.i] = "ret"]
                                 /\ UNCHANGED <<sst, stopped>>
             [] c.k = "stop" -> /\ sst' = "ret" /\ stopped' = TRUE /\ UNCHANGED <<buf, out, dst>>
        /\ UNCHANGED <<started, done, need, gated>>
Tick == /\ ~stopped /\ ~gated /\ buf # <<>> /\ out' = Flushed(buf) /\ buf' = <<>>
        /\ UNCHANGED <<started, done, q, dst, need, sst, stopped, gated>>
Gate == /\ ~gated /\ gated' = TRUE /\ UNCHANGED <<started, done, q, buf, out, dst, need, sst, stopped>>
Release == /\ gated /\ gated' = FALSE /\ UNCHANGED <<started, done, q, buf, out, dst, need, sst, stopped>>
QNext == \/ \E r \in Recs : EmitCall(r) \/ EmitSend(r)
         \/ \E d \in Drains : DrainCall(d) \/ DrainSend(d) \/ DrainGiveUp(d)
         \/ StopCall \/ StopSend \/ Loop \/ Tick \/ Gate \/ Release
Fair == /\ \A r \in Recs : SF_qvars(EmitSend(r))
        /\ \A d \in Drains : SF_qvars(DrainSend(d)) /\ WF_qvars(DrainGiveUp(d))
        /\ SF_qvars(StopSend) /\ SF_qvars(Loop) /\ SF_qvars(Tick) /\ WF_qvars(Release)
QSpec == QInit /\ [][QNext]_qvars /\ Fair

(* ---- what is promised --------------------------------------------------- *)
RECURSIVE Cat(_)
Cat(ds) == IF ds = <<>> THEN <<>> ELSE Head(ds) \o Cat(Tail(ds))
SentLinesOf(r) == SelectSeq(Cat(out), LAMBDA x : x.i = r)
Sent(r) == Len(SentLinesOf(r))
InvOrder == \A r \in Recs : \A i \in 1..Sent(r) : SentLinesOf(r)[i].n = i       \* once, in order
InvBounded == \A i \in 1..Len(out) : Len(out[i]) <= BufMax /\ out[i] # <<>>
InvDrained == \A d \in Drains : dst[d] = "ret" /\ ~stopped => \A r \in Recs : Sent(r) >= need[d][r]
InvKept == ~stopped => \A r \in Recs : Sent(r) + Len(SelectSeq(buf, LAMBDA x : x.i = r)) + Len(SelectSeq(q, LAMBDA x : x.k = "line" /\ x.i = r)) = done[r]
QuietAfterStop == [][stopped => out' = out]_qvars
DrainsReturn == \A d \in Drains : (dst[d] = "send") ~> (dst[d] = "ret")
StopReturns == (sst = "send") ~> (sst = "ret")
AllSent == \A r \in Recs : \A n \in 1..N : (done[r] >= n) ~> (Sent(r) >= n \/ stopped)
=============================================================================
