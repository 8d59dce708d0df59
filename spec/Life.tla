-------------------------------- MODULE Life --------------------------------
(* Lifecycle of a component with one worker goroutine (polling sink, Librato *)
(* and Bugsnag sinks, runtime metrics, healthd): recorders feed a bounded    *)
(* queue, clients ask for answers, a timer fires, the worker acts (possibly  *)
(* producing slow outputs), and one stop hands itself to the worker.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Clients, Cap, MaxRec
VARIABLES q, sentN, wpc, spc, cpc, tick, outs
lvars == <<q, sentN, wpc, spc, cpc, tick, outs>>
LInit == q = 0 /\ sentN = 0 /\ wpc = "select" /\ spc = "idle" /\ cpc = [c \in Clients |-> "idle"] /\ tick = FALSE /\ outs = 0
Record == sentN < MaxRec /\ q < Cap /\ q' = q + 1 /\ sentN' = sentN + 1 /\ UNCHANGED <<wpc, spc, cpc, tick, outs>>
Tick == ~tick /\ wpc # "over" /\ tick' = TRUE /\ UNCHANGED <<q, sentN, wpc, spc, cpc, outs>>
TakeTick == wpc = "select" /\ tick /\ tick' = FALSE /\ wpc' = "output" /\ UNCHANGED <<q, sentN, spc, cpc, outs>>
TakeRec == wpc = "select" /\ q > 0 /\ q' = q - 1 /\ wpc' \in {"select", "output"} /\ UNCHANGED <<sentN, spc, cpc, tick, outs>>
Output == wpc = "output" /\ wpc' = "select" /\ outs' = (IF outs < 2 THEN outs + 1 ELSE outs) /\ UNCHANGED <<q, sentN, spc, cpc, tick>>
Ask(c) == cpc[c] = "idle" /\ cpc' = [cpc EXCEPT ![c] = "asking"] /\ UNCHANGED <<q, sentN, wpc, spc, tick, outs>>
Answer(c) == wpc = "select" /\ cpc[c] = "asking" /\ cpc' = [cpc EXCEPT ![c] = "idle"] /\ UNCHANGED <<q, sentN, wpc, spc, tick, outs>>
StopCall == spc = "idle" /\ spc' = "sending" /\ UNCHANGED <<q, sentN, wpc, cpc, tick, outs>>
StopTaken == spc = "sending" /\ wpc = "select" /\ spc' = "waiting" /\ wpc' = "ending" /\ UNCHANGED <<q, sentN, cpc, tick, outs>>
StopDone == spc = "waiting" /\ wpc = "ending" /\ spc' = "returned" /\ wpc' = "over" /\ UNCHANGED <<q, sentN, cpc, tick, outs>>
LNext == Record \/ Tick \/ TakeTick \/ TakeRec \/ Output \/ StopCall \/ StopTaken \/ StopDone \/ \E c \in Clients : Ask(c) \/ Answer(c)
LSpec == LInit /\ [][LNext]_lvars /\ WF_lvars(Output) /\ SF_lvars(StopTaken) /\ WF_lvars(StopDone)
         /\ SF_lvars(TakeTick) /\ SF_lvars(TakeRec) /\ \A c \in Clients : SF_lvars(Answer(c))
StopReturns == (spc = "sending") ~> (spc = "returned")
QuietAfterStop == [][spc = "returned" => outs' = outs]_lvars
GoneAfterStop == spc = "returned" => wpc = "over"
=============================================================================
