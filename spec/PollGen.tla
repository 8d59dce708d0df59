------------------------------ MODULE PollGen ------------------------------
(* Behaviours of Poll as operation sequences for the conformance driver.    *)
(*  RandNext: one random enabled operation per step (for tlc -simulate).    *)
(*  AllNext:  every operation sequence of length Depth (for tlc BFS).       *)
EXTENDS Poll, Json, CSV, IOUtils
CONSTANTS Depth, Weights
VARIABLE hist
gvars == <<vars, hist>>

GenVs  == {-7, 0, 1, 2, 3, 10, 999}
GenAdvs == {1, 3, 7, 8, 9, 16, 25, 70}
W5 == <<"event", "event", "err", "err", "timing", "timing", "timing", "gauge", "gauge", "complete", "complete", "complete", "snap">>
W6 == <<"event", "err", "timing", "gauge", "complete", "adv", "adv", "adv", "adv", "snap", "snap">>
W7 == <<"event", "err", "timing", "gauge", "complete", "adv", "snap", "again", "again">>
W9 == <<"event", "event", "err", "timing", "gauge", "complete", "complete", "adv", "http", "http">>
Small == {-1, 2}

Out(h) == CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.GEN_FILE)
GInit == Init /\ hist = <<>>
Do(o) == /\ Step(o)
         /\ hist' = Append(hist, o)
         /\ (Len(hist') = Depth => Out(hist'))
RandNext ==
  /\ Len(hist) < Depth
  /\ LET ks == SelectSeq(Weights, LAMBDA k : OpsFor(k) # {})
         k  == ks[RandomElement(1..Len(ks))]
     IN \E o \in {RandomElement(OpsFor(k))} : Do(o)
AllNext ==
  /\ Len(hist) < Depth
  /\ \E k \in {Weights[i] : i \in 1..Len(Weights)} : \E o \in OpsFor(k) : Do(o)
=============================================================================
