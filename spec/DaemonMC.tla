------------------------------ MODULE DaemonMC ------------------------------
(* Start-up: the daemon's own sink begins to listen at some point, the first *)
(* round of polls may come before that, later rounds follow.                 *)
EXTENDS Daemon
CONSTANTS Hosts, Self, Counts
VARIABLES given, up, pc, listening, status, got, rounds
mcvars == <<given, up, pc, listening, status, got, rounds>>
MCInit == /\ given \in SUBSET Hosts /\ up \in SUBSET given /\ pc = "start" /\ listening = FALSE /\ status = [h \in {} |-> ""] /\ got = [h \in {} |-> 0] /\ rounds = 0
Begin == /\ pc = "start"
         /\ IF Running(given) THEN pc' = "up" /\ status' = [h \in Monitored(given, Self) |-> "unknown"] ELSE pc' = "exit1" /\ UNCHANGED status
         /\ UNCHANGED <<given, up, listening, got, rounds>>
Listen == pc = "up" /\ ~listening /\ listening' = TRUE /\ UNCHANGED <<given, up, pc, status, got, rounds>>
Answers(h) == IF h = Self THEN listening ELSE h \in up
Round == /\ pc = "up" /\ rounds < 3 /\ rounds' = rounds + 1
         /\ status' = [h \in DOMAIN status |-> IF Answers(h) THEN "ok" ELSE "failed"]
         /\ got' = [h \in {x \in DOMAIN status : Answers(x)} |-> IF h = Self THEN 0 ELSE Counts]
         /\ UNCHANGED <<given, up, pc, listening>>
Again == pc = "up" /\ rounds = 3 /\ rounds' = 2 /\ UNCHANGED <<given, up, pc, listening, status, got>>
MCNext == Begin \/ Listen \/ Round \/ Again
MCSpec == MCInit /\ [][MCNext]_mcvars /\ WF_mcvars(Begin) /\ WF_mcvars(Listen) /\ WF_mcvars(Round) /\ WF_mcvars(Again)
InvHosts == pc = "up" => DOMAIN status = given \cup {Self}
InvExit == pc = "exit1" => given = {} /\ ~listening /\ rounds = 0
InvWell == \A h \in DOMAIN status : status[h] = "ok" => h \in Well(up, Self)
Settles == (pc = "up") ~> ({h \in DOMAIN status : status[h] = "ok"} = Well(up, Self) /\ DOMAIN got = Well(up, Self))
=============================================================================
