----------------------------- MODULE StreamGen -----------------------------
EXTENDS Stream, Json, CSV, IOUtils
CONSTANTS Depth, Weights
VARIABLE hist
W1 == <<"addsink", "addsink", "newjob", "rename", "newjob", "event", "err", "timing", "gauge", "complete", "skv", "adv", "runstream", "runend">>
W2 == <<"addsink", "newjob", "newjob", "skvdel", "jkvdel", "rename", "skv", "skv", "jkv", "jkv", "ckv", "event", "err", "timing", "gauge", "complete", "event", "complete", "runjob", "runend">>
W3 == <<"addsink", "newjob", "err", "err", "err", "err", "skv", "event", "runjob", "runend">>
W4 == <<"addsink", "newjob", "runjob", "runjob", "runstream", "runstream", "runend", "runend", "runend", "event", "err", "complete", "adv", "adv", "skv", "jkv">>
X1 == <<"addsink", "newjob", "event", "err", "timing", "gauge", "complete">>
X2 == <<"skv", "jkv", "ckv", "event">>
X3 == <<"addsink", "err">>
X4 == <<"runjob", "runend", "adv", "event">>
Out(h) == CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.GEN_FILE)
GInit == Init /\ hist = <<>>
Do(o) == /\ Step(o)
         /\ hist' = Append(hist, o)
         /\ (Len(hist') = Depth => Out(hist'))
RandNext ==
  /\ Len(hist) < Depth
  /\ LET ks == SelectSeq(Weights, LAMBDA k : OpsFor(k) # {})
         k  == ks[RandomElement(1..Len(ks))]
     IN \E o \in {RandomElement(OpsFor(k))} : Do(o)
AllNext ==
  /\ Len(hist) < Depth
  /\ \E k \in {Weights[i] : i \in 1..Len(Weights)} : \E o \in OpsFor(k) : Do(o)
=============================================================================
