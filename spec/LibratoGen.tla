----------------------------- MODULE LibratoGen -----------------------------
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS Depth, Weights, Jobs, Evs, Vs, Sts, Outs
VARIABLE hist
GenVs == {-3, 0, 1, 2, 7, 50, 700}
W16 == <<"event", "event", "err", "timing", "timing", "gauge", "gauge", "complete", "complete", "adv", "adv", "script", "burst">>
X16 == <<"event", "timing", "adv">>
SmallVs == {-1, 2}
OpsFor(k) ==
  CASE k \in {"event", "err"} -> [op : {"rec"}, k : {k}, job : Jobs, ev : Evs]
    [] k \in {"timing", "gauge"} -> [op : {"rec"}, k : {k}, job : Jobs, ev : Evs, v : Vs]
    [] k = "complete" -> [op : {"rec"}, k : {k}, job : Jobs, st : Sts, v : Vs]
    [] k = "burst" -> [op : {"burst"}, n : {10, 3000, 5000}, job : Jobs]
    [] k = "script" -> [op : {"script"}, out : Outs]
    [] k = "adv" -> [op : {"adv"}, dt : {1, 7, 14, 15, 16, 31}]
Out(h) == CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.GEN_FILE)
GInit == hist = <<>>
Do(o) == hist' = Append(hist, o) /\ (Len(hist') = Depth => Out(hist'))
RandNext ==
  /\ Len(hist) < Depth
  /\ LET k == Weights[RandomElement(1..Len(Weights))] IN \E o \in {RandomElement(OpsFor(k))} : Do(o)
AllNext ==
  /\ Len(hist) < Depth
  /\ \E k \in {Weights[i] : i \in 1..Len(Weights)} : \E o \in OpsFor(k) : Do(o)
=============================================================================
