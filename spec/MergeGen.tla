------------------------------ MODULE MergeGen ------------------------------
EXTENDS Merge, Json, CSV, IOUtils
CONSTANTS Depth, Weights
VARIABLE hist
GenVs == {-5, 0, 1, 3, 10, 700}
W8 == <<"event", "err", "err", "timing", "timing", "gauge", "complete", "complete", "take", "take", "take", "clone", "merge", "merge", "merge", "merge", "poke", "new">>
X8 == <<"event", "complete", "take", "merge", "clone", "poke">>
SmallVs == {2}
Out(h) == CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.GEN_FILE)
GInit == Init /\ hist = <<>>
Do(o) == /\ Step(o)
         /\ hist' = Append(hist, o)
         /\ (Len(hist') = Depth => Out(hist'))
RandNext ==
  /\ Len(hist) < Depth
  /\ LET ks == SelectSeq(Weights, LAMBDA k : OpsFor(k) # {})
         k  == ks[RandomElement(1..Len(ks))]
     IN \E o \in {RandomElement(OpsFor(k))} : Do(o)
AllNext ==
  /\ Len(hist) < Depth
  /\ \E k \in {Weights[i] : i \in 1..Len(Weights)} : \E o \in OpsFor(k) : Do(o)
=============================================================================
