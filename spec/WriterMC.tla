------------------------------ MODULE WriterMC ------------------------------
(* Several recorders formatting privately and writing once each; plus facts  *)
(* about the text over all small recordings.                                 *)
EXTENDS Writer
CONSTANT Procs
VARIABLES pc, rec, wr
mcvars == <<pc, rec, wr>>
T0 == [y |-> 2000, mo |-> 1, d |-> 2, h |-> 3, mi |-> 4, s |-> 5, ns |-> 0]
T1 == [T0 EXCEPT !.ns = 120000]
V(neg, hi, lo, ns, s) == [neg |-> neg, hi |-> hi, lo |-> lo, ns |-> ns, s |-> s]
Vs == {V(FALSE, 0, 2, 0, "2000000"), V(FALSE, 0, 2, 1, "2000001"), V(FALSE, 0, 0, 2000, "2000"), V(FALSE, 0, 0, 2001, "2001"), V(TRUE, 0, 5, 0, "-5000000"), V(FALSE, 3, 7, 0, "3000007000000")}
KA == [k |-> "a", v |-> "1", b |-> <<97>>]
KB == [k |-> "ab", v |-> "2", b |-> <<97, 98>>]
KE == [k |-> "", v |-> "", b |-> <<>>]
Kvs == {<<>>, <<KA>>, <<KB, KA>>, <<KA, KB, KE>>, <<KE, KB, KA>>}
Base == [job : {"", "j"}, t : {T0, T1}, kvs : Kvs]
Rs == {[k |-> "event", ev |-> "e"] @@ b : b \in Base} \cup {[k |-> "err", ev |-> "e", err |-> "x y"] @@ b : b \in Base}
      \cup {[k |-> "timing", ev |-> "e", v |-> v] @@ b : v \in Vs, b \in Base} \cup {[k |-> "gauge", ev |-> "e", g |-> "0.5"] @@ b : b \in Base}
      \cup {[k |-> "complete", st |-> "success", v |-> v] @@ b : v \in Vs, b \in Base}
Evs == <<"p1", "p2", "p3">>
MCInit == /\ pc = [p \in Procs |-> "build"] /\ wr = <<>>
          /\ \E r \in Rs : rec = [p \in Procs |-> IF p = 1 THEN r ELSE [k |-> "event", ev |-> Evs[p], job |-> "other", t |-> T0, kvs |-> <<>>]]
Build(p) == pc[p] = "build" /\ pc' = [pc EXCEPT ![p] = "write"] /\ UNCHANGED <<rec, wr>>
Write(p) == pc[p] = "write" /\ pc' = [pc EXCEPT ![p] = "done"] /\ wr' = Append(wr, [raw |-> CHOOSE x \in Texts(rec[p]) : TRUE]) /\ UNCHANGED rec
MCNext == \E p \in Procs : Build(p) \/ Write(p)
InvOnce == (\A p \in Procs : pc[p] = "done") => OneEach([p \in 1..Cardinality(Procs) |-> rec[p]], wr, FALSE)
NL(s) == Cardinality({i \in 1..Len(s) : Ch(s, i) = "\n"})
InvOneLine == \A x \in Texts(rec[1]) : NL(x) = 1 /\ Ch(x, Len(x)) = "\n"
InvOrderFree == \A x, y \in Kvs : KvSet(x) = KvSet(y) => KvTexts(x) = KvTexts(y)
=============================================================================
