------------------------------ MODULE Librato -------------------------------
(* The Librato sink (sinks/librato): accumulation per key and submission per *)
(* flush period. Values are integers in a unit fixed per run.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Ch(s, i) == SubSeq(s, i, i)
OKChars == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z",
            "a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
            "0","1","2","3","4","5","6","7","8","9","_",".",":","-"}
RECURSIVE SanFrom(_, _)
SanFrom(s, i) == IF i > Len(s) THEN "" ELSE (IF Ch(s, i) \in OKChars THEN Ch(s, i) ELSE "_") \o SanFrom(s, i + 1)
San(s) == SanFrom(s, 1)
(* the application may set another sanitizer; the one set here adds brackets *)
SanBy(r, s) == IF "san" \in DOMAIN r /\ r.san = "bracket" THEN "<" \o s \o ">" ELSE San(s)
Pre(p) == IF p = "" THEN "" ELSE p \o "."
Suffix(k) == CASE k = "event" -> ".count" [] k = "err" -> ".error.count" [] k \in {"timing", "complete"} -> ".timing" [] k = "gauge" -> ".gauge"
Keys(p, r) == IF r.k = "complete" THEN <<Pre(p) \o SanBy(r, r.job) \o "." \o r.st \o ".timing">>
              ELSE <<Pre(p) \o SanBy(r, r.ev) \o Suffix(r.k), Pre(p) \o SanBy(r, r.job) \o "." \o SanBy(r, r.ev) \o Suffix(r.k)>>
Counts(r) == r.k \in {"event", "err"}
Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a > b THEN a ELSE b
(* a recording with multiplicity n stands for n of them in a row: all of     *)
(* value v, or (alt) of v, -v, v, -v, ...                                    *)
Alt(r) == r.n > 1 /\ r.alt
Tot(r) == IF Alt(r) THEN (r.n % 2) * r.v ELSE r.n * r.v
Low(r) == IF Alt(r) THEN Mn(r.v, 0 - r.v) ELSE r.v
High(r) == IF Alt(r) THEN Mx(r.v, 0 - r.v) ELSE r.v
Drop(r, k) == [r EXCEPT !.n = @ - k, !.v = IF r.alt /\ k % 2 = 1 THEN 0 - @ ELSE @]
(* acc: key |-> [c: count, s: sum, q: sum of squares, mn, mx]; counters only c *)
Add(acc, key, r) ==
  IF Counts(r) THEN (key :> [t |-> "c", c |-> (IF key \in DOMAIN acc THEN acc[key].c ELSE 0) + r.n, s |-> 0, q |-> 0, mn |-> 0, mx |-> 0]) @@ acc
  ELSE IF key \in DOMAIN acc
  THEN [acc EXCEPT ![key] = [t |-> "m", c |-> @.c + r.n, s |-> @.s + Tot(r), q |-> @.q + r.n * r.v * r.v, mn |-> Mn(@.mn, Low(r)), mx |-> Mx(@.mx, High(r))]]
  ELSE (key :> [t |-> "m", c |-> r.n, s |-> Tot(r), q |-> r.n * r.v * r.v, mn |-> Low(r), mx |-> High(r)]) @@ acc
Acc1(p, acc, r) == IF r.n = 0 THEN acc ELSE FoldLeft(LAMBDA a, k : Add(a, k, r), acc, Keys(p, r))
AccAll(p, rs) == FoldLeft(LAMBDA a, r : Acc1(p, a, r), <<>>, rs)

(* ---- submissions ---------------------------------------------------------*)
VARIABLES pend,     \* recordings not yet submitted, in order
          now       \* seconds since the sink was created
lvars == <<pend, now>>
LInit == pend = <<>> /\ now = 0
Period == 15
(* All ways to cut the pending recordings into (submitted, rest); a recording *)
(* with multiplicity may be split.                                            *)
Cuts(rs, m) ==   \* m: how often the split recording is in the submission
  {[in |-> SubSeq(rs, 1, i), out |-> SubSeq(rs, i + 1, Len(rs))] : i \in 0..Len(rs)}
  \cup {[in |-> SubSeq(rs, 1, i - 1) \o <<[rs[i] EXCEPT !.n = m[i]]>>, out |-> <<Drop(rs[i], m[i])>> \o SubSeq(rs, i + 1, Len(rs))]
        : i \in {j \in 1..Len(rs) : m[j] > 0 /\ m[j] < rs[j].n}}
=============================================================================
