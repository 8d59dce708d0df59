----------------------------- MODULE PollConcMC -----------------------------
(* The sink: bounded queue, one goroutine that applies recordings and        *)
(* answers polls with copies.                                                *)
EXTENDS PollConc
CONSTANTS N, Cap, MaxPolls
VARIABLES sent,   \* p |-> recordings finished (queued)
          q,      \* queued recordings
          agg,    \* p |-> recordings applied to job p
          over,   \* recordings applied overall, as a cut
          marks, polls, begun
mcvars == <<sent, q, agg, over, marks, polls, begun>>
Zero == [p \in Prods |-> 0]
MCInit == sent = Zero /\ q = <<>> /\ agg = Zero /\ over = Zero /\ marks = [p \in Prods |-> <<>>] /\ polls = <<>> /\ begun = Zero
Begin(p) == begun[p] = sent[p] /\ begun[p] < N[p] /\ begun' = [begun EXCEPT ![p] = @ + 1]
            /\ marks' = [marks EXCEPT ![p] = Append(@, [k |-> begun[p] + 1, v |-> sent])] /\ UNCHANGED <<sent, q, agg, over, polls>>
Send(p) == begun[p] > sent[p] /\ Len(q) < Cap /\ q' = Append(q, p) /\ sent' = [sent EXCEPT ![p] = @ + 1] /\ UNCHANGED <<agg, over, marks, polls, begun>>
Apply == q # <<>> /\ q' = Tail(q) /\ agg' = [agg EXCEPT ![Head(q)] = @ + 1] /\ over' = [over EXCEPT ![Head(q)] = @ + 1] /\ UNCHANGED <<sent, marks, polls, begun>>
Poll == Len(polls) < MaxPolls /\ polls' = Append(polls, [job |-> agg, tot |-> over]) /\ UNCHANGED <<sent, q, agg, over, marks, begun>>
MCNext == Apply \/ Poll \/ \E p \in Prods : Begin(p) \/ Send(p)
MCSpec == MCInit /\ [][MCNext]_mcvars /\ WF_mcvars(Apply) /\ \A p \in Prods : WF_mcvars(Begin(p)) /\ WF_mcvars(Send(p))
InvCut == \A i \in 1..Len(polls) : polls[i].job = polls[i].tot /\ Closed(polls[i].job, marks)
InvNoLoss == \A p \in Prods : sent[p] = agg[p] + Cardinality({i \in 1..Len(q) : q[i] = p})
Immutable == [][\A i \in 1..Len(polls) : polls'[i] = polls[i]]_mcvars
AllCounted == <>(agg = N)
(* the decoding used on traces inverts the encoding                          *)
Enc(K) == [jobs |-> [p \in Prods |-> JobVec(p, K[p])],
           tot |-> [p \in Prods |-> TotVec(p, K) @@ [gs |-> (IF Last(K[1], 4) # 0 THEN Last(K[1], 4) ELSE IF Last(K[2], 4) # 0 THEN Last(K[2], 4) ELSE Last(K[3], 4)),
                     ns |-> (IF HasS(K) = {} THEN 0 ELSE 1 + CHOOSE x \in HasS(K) : \A r \in HasS(K) : x <= r),
                     ms |-> (IF HasS(K) = {} THEN 0 ELSE 1 + CHOOSE x \in HasS(K) : \A r \in HasS(K) : x >= r)]],
           serial |-> Sum(K), extra |-> 0]
ASSUME \A K \in [Prods -> {0, 1, 4, 9, 10, 13, 27, 5001}] : Cuts(Enc(K)) = {K}
MCN == <<2, 2, 1>>
MCNbig == <<3, 2, 2>>
=============================================================================
