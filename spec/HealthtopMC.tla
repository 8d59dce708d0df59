----------------------------- MODULE HealthtopMC ----------------------------
(* The loop of healthtop: a ticker, polls in flight (one goroutine each,     *)
(* handing over through unbuffered channels, in any order) and the screen.   *)
EXTENDS Healthtop
CONSTANTS MaxTick, MaxSlow
VARIABLES now,      \* ms; polls start on full seconds, answers arrive in between
          fly,      \* polls in flight
          scr       \* what is drawn: [rows, have, st]
mcvars == <<tvars, now, fly, scr>>
View == [rows |-> data', have |-> have', st |-> (IF okAt' = -1 /\ errAt' = -1 THEN "starting" ELSE IF errAt' > okAt' THEN "error" ELSE "success")]
MCInit == TopInit /\ now = 0 /\ fly = {1} /\ scr = [rows |-> <<>>, have |-> FALSE, st |-> "none"]
Spawn == /\ now % Period # 0 /\ now \div Period < MaxTick
         /\ now' = Tick(now) + Period /\ Cardinality(fly) < MaxSlow /\ fly' = fly \cup {(now' \div Period) + 1}
         /\ nreq' = nreq + 1 /\ UNCHANGED <<data, have, okAt, errAt, errTok, shown, seen>> /\ scr' = View
First == nreq = 0 /\ nreq' = 1 /\ now' = now + 1 /\ UNCHANGED <<data, have, okAt, errAt, errTok, shown, seen, fly, scr>>
Idle == nreq > 0 /\ now % Period = 0 /\ now' = now + 1 /\ UNCHANGED <<tvars, fly, scr>>
Arrive(p, ok) ==
  /\ nreq > 0 /\ p \in fly /\ fly' = fly \ {p} /\ now % Period # 0 /\ now % Period < 4 /\ now' = now + 1
  /\ Answer([n |-> p, ok |-> ok, t |-> now, tok |-> "", rows |-> <<p>>])
  /\ scr' = IF ok THEN View ELSE scr
MCNext == First \/ Spawn \/ Idle \/ \E p \in fly : Arrive(p, TRUE) \/ Arrive(p, FALSE)
MCSpec == MCInit /\ [][MCNext]_mcvars
(* the screen never lags behind an answer, and behind a failure only until the next second *)
InvData == scr.have = have /\ scr.rows = data
InvStatus == (scr.st # "none" /\ ~(Latest = "error" /\ errAt >= Tick(now))) => scr.st = Latest
InvFailuresKeepData == have => Len(data) = 1
InvPolls == nreq > 0 => nreq = (now \div Period) + 1
=============================================================================
