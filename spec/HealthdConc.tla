---------------------------- MODULE HealthdConc -----------------------------
(* The channels of healthd: polls deliver answers to the aggregator through  *)
(* a bounded channel, the aggregator asks the debouncer for recalculation    *)
(* through another, and the debouncer hands recalculations back through a    *)
(* rendezvous; queries and one stop are served by the aggregator. With       *)
(* Blocking = TRUE a full request channel blocks the aggregator (a defect    *)
(* that was repaired: it deadlocks); otherwise the request is dropped, which *)
(* is harmless because one is waiting already. With LetGo = FALSE nobody     *)
(* takes the answers of polls in progress, or lets go of the queries that    *)
(* were waiting, once the aggregator has stopped (another defect that was    *)
(* repaired: they wait forever).                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, RCap, QCap, Blocking, LetGo, Queries, ACap
VARIABLES todo,   \* answers of this round not yet sent
          resp,   \* number of answers in the responses channel
          dirty,  \* data consumed but not recalculated
          reqs,   \* number of requests in the request channel
          apc,    \* aggregator: "select", "request" (sending), "over"
          dpc,    \* debouncer: "look", "send" (handing over), "over"
          old,    \* debouncer has an unserved request
          spc,    \* stop: "idle", "sending", "returned"
          gone,   \* the aggregator has said that it has stopped
          asking, \* queries about to put their question (they saw no stop)
          asked   \* queries in the question channel
cvars == <<todo, resp, dirty, reqs, apc, dpc, old, spc, gone, asking, asked>>
qvars == <<asking, asked>>
CInit == todo = N /\ resp = 0 /\ dirty = FALSE /\ reqs = 0 /\ apc = "select" /\ dpc = "look" /\ old = FALSE /\ spc = "idle"
         /\ gone = FALSE /\ asking = 0 /\ asked = 0
Send == todo > 0 /\ resp < RCap /\ todo' = todo - 1 /\ resp' = resp + 1 /\ UNCHANGED <<dirty, reqs, apc, dpc, old, spc, gone, qvars>>
NewRound == todo = 0 /\ resp = 0 /\ apc # "over" /\ todo' = N /\ UNCHANGED <<resp, dirty, reqs, apc, dpc, old, spc, gone, qvars>>
Consume == /\ apc = "select" /\ resp > 0 /\ resp' = resp - 1 /\ dirty' = TRUE /\ apc' = "request"
           /\ UNCHANGED <<todo, reqs, dpc, old, spc, gone, qvars>>
Request == /\ apc = "request" /\ (reqs < QCap \/ ~Blocking) /\ apc' = "select"
           /\ reqs' = IF reqs < QCap THEN reqs + 1 ELSE reqs
           /\ UNCHANGED <<todo, resp, dirty, dpc, old, spc, gone, qvars>>
Look == dpc = "look" /\ reqs > 0 /\ reqs' = reqs - 1 /\ old' = TRUE /\ UNCHANGED <<todo, resp, dirty, apc, dpc, spc, gone, qvars>>
Due == dpc = "look" /\ old /\ dpc' = "send" /\ UNCHANGED <<todo, resp, dirty, reqs, apc, old, spc, gone, qvars>>
Hand == /\ dpc = "send" /\ apc = "select" /\ dpc' = "look" /\ old' = FALSE /\ dirty' = FALSE
        /\ UNCHANGED <<todo, resp, reqs, apc, spc, gone, qvars>>
(* a query that finds no stop announced goes on to ask                       *)
Ask == spc = "idle" /\ asking + asked < Queries /\ asking' = asking + 1 /\ UNCHANGED <<todo, resp, dirty, reqs, apc, dpc, old, spc, gone, asked>>
Put == asking > 0 /\ asked < ACap /\ asking' = asking - 1 /\ asked' = asked + 1 /\ UNCHANGED <<todo, resp, dirty, reqs, apc, dpc, old, spc, gone>>
Answer == apc = "select" /\ asked > 0 /\ asked' = asked - 1 /\ UNCHANGED <<todo, resp, dirty, reqs, apc, dpc, old, spc, gone, asking>>
StopCall == spc = "idle" /\ spc' = "sending" /\ UNCHANGED <<todo, resp, dirty, reqs, apc, dpc, old, gone, qvars>>
StopTaken == spc = "sending" /\ apc = "select" /\ spc' = "returned" /\ apc' = "over" /\ UNCHANGED <<todo, resp, dirty, reqs, dpc, old, gone, qvars>>
(* after the loop the aggregator says so to the queries, closes the request  *)
(* channel, takes what the debouncer still hands over until it is gone, and  *)
(* then what the polls in progress still deliver                             *)
Tell == LetGo /\ apc = "over" /\ gone' = TRUE /\ UNCHANGED <<todo, resp, dirty, reqs, apc, dpc, old, spc, qvars>>
GiveUp == /\ gone
          /\ \/ asking > 0 /\ asking' = asking - 1 /\ UNCHANGED asked
             \/ asked > 0 /\ asked' = asked - 1 /\ UNCHANGED asking
          /\ UNCHANGED <<todo, resp, dirty, reqs, apc, dpc, old, spc, gone>>
Drain == apc = "over" /\ dpc = "send" /\ dpc' = "look" /\ old' = FALSE /\ UNCHANGED <<todo, resp, dirty, reqs, apc, spc, gone, qvars>>
Gone == apc = "over" /\ dpc = "look" /\ reqs = 0 /\ dpc' = "over" /\ UNCHANGED <<todo, resp, dirty, reqs, apc, old, spc, gone, qvars>>
Late == LetGo /\ dpc = "over" /\ resp > 0 /\ resp' = resp - 1 /\ UNCHANGED <<todo, dirty, reqs, apc, dpc, old, spc, gone, qvars>>
CNext == Send \/ NewRound \/ Consume \/ Request \/ Look \/ Due \/ Hand \/ Ask \/ Put \/ Answer \/ StopCall \/ StopTaken \/ Tell \/ GiveUp \/ Drain \/ Gone \/ Late
CSpec == CInit /\ [][CNext]_cvars /\ WF_cvars(Request) /\ WF_cvars(Look) /\ SF_cvars(Due) /\ SF_cvars(Hand) /\ SF_cvars(StopTaken)
         /\ SF_cvars(Consume) /\ WF_cvars(Drain) /\ SF_cvars(Gone) /\ SF_cvars(Send) /\ SF_cvars(Put) /\ SF_cvars(Answer) /\ WF_cvars(Tell) /\ WF_cvars(GiveUp) /\ WF_cvars(Late)
Asked == dirty /\ apc = "select" => reqs > 0 \/ old      \* nothing is forgotten
Recalculated == (dirty /\ spc = "idle") ~> (~dirty \/ spc # "idle")
StopReturns == (spc = "sending") ~> (spc = "returned")
DebouncerEnds == (spc = "returned") ~> (dpc = "over")
PollsEnd == (spc = "returned") ~> (todo = 0)
QueriesEnd == (spc = "returned") ~> (asking + asked = 0)
NotStuck == apc = "over" \/ ENABLED (Consume \/ Request \/ Hand \/ Look \/ Due \/ Send \/ NewRound)
=============================================================================
