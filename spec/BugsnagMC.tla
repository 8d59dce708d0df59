----------------------------- MODULE BugsnagMC ------------------------------
(* The sink's queue and posting loop, over all endpoint outcomes.            *)
EXTENDS Bugsnag
CONSTANTS Errs, Cap, MaxRec, MaxKv
VARIABLES kv,      \* the job's current key/values (a version number)
          pend,    \* a recording waiting for room in the queue
          q, posting, posted, nrec
mcvars == <<bvars, kv, pend, q, posting, posted, nrec>>
None == [x |-> "none", kv |-> -1]
MCInit == BInit /\ kv = 0 /\ pend = <<>> /\ q = <<>> /\ posting = None /\ posted = <<>> /\ nrec = 0
Rec(x, how) ==
  /\ pend = <<>> /\ nrec < MaxRec
  /\ how = "fresh" => x \notin em \cup mut
  /\ how = "again" => x \in em \cup mut
  /\ how = "mute" => x \notin em
  /\ LET o == [x |-> x, how |-> how, n |-> [x |-> x, kv |-> kv]] IN
     /\ Record(o)
     /\ pend' = IF Due(o) THEN <<o.n>> ELSE <<>>
  /\ nrec' = nrec + 1 /\ UNCHANGED <<kv, q, posting, posted>>
Enq == pend # <<>> /\ Len(q) < Cap /\ q' = Append(q, pend[1]) /\ pend' = <<>> /\ UNCHANGED <<bvars, kv, posting, posted, nrec>>
SetKv == kv < MaxKv /\ kv' = kv + 1 /\ UNCHANGED <<bvars, pend, q, posting, posted, nrec>>
Take == posting = None /\ q # <<>> /\ posting' = Head(q) /\ q' = Tail(q) /\ posted' = Append(posted, Head(q)) /\ UNCHANGED <<bvars, kv, pend, nrec>>
(* ok, rejected, failed, slow: all the same to the sink                      *)
Answer == posting # None /\ posting' = None /\ UNCHANGED <<bvars, kv, pend, q, posted, nrec>>
MCNext == (\E x \in Errs, how \in {"fresh", "again", "mute"} : Rec(x, how)) \/ Enq \/ SetKv \/ Take \/ Answer
MCSpec == MCInit /\ [][MCNext]_mcvars /\ WF_mcvars(Enq) /\ WF_mcvars(Take) /\ WF_mcvars(Answer)
InvPrefix == Len(posted) <= Len(want) /\ posted = SubSeq(want, 1, Len(posted))
InvOnce == \A i, j \in 1..Len(want) : want[i].x = want[j].x => i = j
InvNoMuted == \A i \in 1..Len(want) : want[i].x \notin mut
AllPosted == \A n \in 1..MaxRec : (Len(want) >= n) ~> (Len(posted) >= n)
=============================================================================
