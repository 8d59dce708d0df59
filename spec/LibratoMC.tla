----------------------------- MODULE LibratoMC ------------------------------
(* The sink's loop: command queue, accumulation, flush ticks, slow or failing *)
(* submissions. Every recording ends in exactly one submission.               *)
EXTENDS Librato
CONSTANTS MaxRec, Cap
VARIABLES q, maps, sending, subs, n, tick
mcvars == <<lvars, q, maps, sending, subs, n, tick>>
R(i) == CASE i % 4 = 0 -> [k |-> "event", job |-> "j", ev |-> "a b", n |-> 1, v |-> 0]
          [] i % 4 = 1 -> [k |-> "timing", job |-> "j", ev |-> "success", n |-> 1, v |-> 3 * i - 5]
          [] i % 4 = 2 -> [k |-> "complete", job |-> "j", st |-> "success", n |-> 1, v |-> i]
          [] i % 4 = 3 -> [k |-> "err", job |-> "j", ev |-> "a.b", n |-> 1, v |-> 0]
MCInit == LInit /\ q = <<>> /\ maps = <<>> /\ sending = FALSE /\ subs = <<>> /\ n = 0 /\ tick = FALSE
Rec == n < MaxRec /\ Len(q) < Cap /\ q' = Append(q, R(n)) /\ n' = n + 1 /\ UNCHANGED <<lvars, maps, sending, subs, tick>>
Proc == ~sending /\ q # <<>> /\ maps' = Append(maps, Head(q)) /\ q' = Tail(q) /\ UNCHANGED <<lvars, sending, subs, n, tick>>
TickFires == ~tick /\ tick' = TRUE /\ UNCHANGED <<lvars, q, maps, sending, subs, n>>
Flush == /\ ~sending /\ tick /\ tick' = FALSE
         /\ IF maps = <<>> THEN UNCHANGED <<subs, sending>> ELSE subs' = Append(subs, maps) /\ sending' = TRUE
         /\ maps' = <<>> /\ UNCHANGED <<lvars, q, n>>
Answer == sending /\ sending' = FALSE /\ UNCHANGED <<lvars, q, maps, subs, n, tick>>
MCNext == Rec \/ Proc \/ TickFires \/ Flush \/ Answer
MCSpec == MCInit /\ [][MCNext]_mcvars /\ WF_mcvars(Proc) /\ WF_mcvars(TickFires) /\ SF_mcvars(Flush) /\ WF_mcvars(Answer)
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
InvOnce == Cat(subs) \o maps \o q = [i \in 1..n |-> R(i - 1)]
InvNonEmpty == \A i \in 1..Len(subs) : subs[i] # <<>>
(* sums over submissions equal sums over everything                          *)
CountAll(a) == IF DOMAIN a = {} THEN 0 ELSE FoldLeft(LAMBDA x, k : x + a[k].c, 0, SetToSeq(DOMAIN a))
InvTotals == CountAll(AccAll("p", Cat(subs) \o maps)) = FoldLeft(LAMBDA x, s : x + CountAll(AccAll("p", s)), CountAll(AccAll("p", maps)), subs)
AllSubmitted == \A k \in 1..MaxRec : (n >= k) ~> (Len(Cat(subs)) >= k)
=============================================================================
