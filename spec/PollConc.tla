------------------------------ MODULE PollConc ------------------------------
(* Concurrent recorders and pollers of the polling sink. Producer p makes    *)
(* recordings 1, 2, 3, ...; the k-th is determined by k % 10:                *)
(*  1 event "s"  2 error "s"  3 timing "s" of p+1  4 gauge "s" := k          *)
(*  5 success in p+1   6-9 the same with its own name, timing 2  0 panic in 3 *)
(* A cut is a function producer |-> number of its recordings seen.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Prods == 1..3
Cnt(k, r) == (k + 10 - r) \div 10        \* r in 1..10: how many i <= k with residue r
Last(k, r) == IF Cnt(k, r) = 0 THEN 0 ELSE (Cnt(k, r) - 1) * 10 + r
Nz(c, v) == IF c = 0 THEN 0 ELSE v
Names == {"es", "xs", "gs", "ts", "us", "qs", "ns", "ms", "eo", "xo", "go", "to", "uo", "qo", "no", "mo"}
JobVec(p, k) ==
  [es |-> Cnt(k, 1), xs |-> Cnt(k, 2), gs |-> Last(k, 4), ts |-> Cnt(k, 3), us |-> Cnt(k, 3) * (p + 1), qs |-> Cnt(k, 3) * (p + 1) * (p + 1),
   ns |-> Nz(Cnt(k, 3), p + 1), ms |-> Nz(Cnt(k, 3), p + 1),
   eo |-> Cnt(k, 6), xo |-> Cnt(k, 7), go |-> Last(k, 9), to |-> Cnt(k, 8), uo |-> Cnt(k, 8) * 2, qo |-> Cnt(k, 8) * 4,
   no |-> Nz(Cnt(k, 8), 2), mo |-> Nz(Cnt(k, 8), 2),
   ok |-> Cnt(k, 5), pan |-> Cnt(k, 10), cc |-> Cnt(k, 5) + Cnt(k, 10), cu |-> Cnt(k, 5) * (p + 1) + Cnt(k, 10) * 3]
Sum(f) == f[1] + f[2] + f[3]
(* the overall figures, for the shared name and p's own                      *)
TotVec(p, K) ==
  [es |-> Sum([q \in Prods |-> Cnt(K[q], 1)]), xs |-> Sum([q \in Prods |-> Cnt(K[q], 2)]), ts |-> Sum([q \in Prods |-> Cnt(K[q], 3)]),
   us |-> Sum([q \in Prods |-> Cnt(K[q], 3) * (q + 1)]), qs |-> Sum([q \in Prods |-> Cnt(K[q], 3) * (q + 1) * (q + 1)]),
   eo |-> Cnt(K[p], 6), xo |-> Cnt(K[p], 7), go |-> Last(K[p], 9), to |-> Cnt(K[p], 8), uo |-> Cnt(K[p], 8) * 2, qo |-> Cnt(K[p], 8) * 4,
   no |-> Nz(Cnt(K[p], 8), 2), mo |-> Nz(Cnt(K[p], 8), 2)]
Fits(v, e) == \A n \in DOMAIN e : v[n] = e[n]
HasS(K) == {q \in Prods : Cnt(K[q], 3) > 0}
SharedOK(v, K) ==      \* shared gauge: one of the producers' last; min and max over those who timed
  /\ v.gs \in (IF \A q \in Prods : Last(K[q], 4) = 0 THEN {0} ELSE {Last(K[q], 4) : q \in Prods} \ {0})
  /\ v.ns = (IF HasS(K) = {} THEN 0 ELSE 1 + CHOOSE q \in HasS(K) : \A r \in HasS(K) : q <= r)
  /\ v.ms = (IF HasS(K) = {} THEN 0 ELSE 1 + CHOOSE q \in HasS(K) : \A r \in HasS(K) : q >= r)
(* cuts a poll may stand for                                                 *)
CandK(p, v) == {k \in (IF v.es = 0 THEN {0} ELSE ((v.es - 1) * 10 + 1)..(v.es * 10)) : Fits(v, JobVec(p, k))}
Cuts(c) ==
  {K \in [Prods -> UNION {CandK(p, c.jobs[p]) : p \in Prods}] :
     /\ \A p \in Prods : K[p] \in CandK(p, c.jobs[p])
     /\ \A p \in Prods : Fits(c.tot[p], TotVec(p, K)) /\ SharedOK(c.tot[p], K)
     /\ c.serial = Sum(K) /\ c.extra = 0}
(* marks[p]: sequence of [k, v]: when p started its k-th recording, v[q]     *)
(* recordings of q had finished                                              *)
Closed(K, marks) == \A p \in Prods : \A i \in 1..Len(marks[p]) : marks[p][i].k <= K[p] => \A q \in Prods : K[q] >= marks[p][i].v[q]
=============================================================================
