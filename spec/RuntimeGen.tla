----------------------------- MODULE RuntimeGen -----------------------------
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS Depth, Weights, Loads
VARIABLE hist
W17 == <<"start", "start", "adv", "adv", "adv", "report", "load", "load", "load", "stop">>
X17 == <<"start", "adv", "report", "stop">>
OpsFor(k) ==
  CASE k = "load" -> [op : {"load"}, k : Loads, n : {1, 2, 3}]
    [] k = "adv" -> [op : {"adv"}, dt : {1, 2, 5, 9, 30}]
    [] OTHER -> [op : {k}]
Out(h) == CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.GEN_FILE)
GInit == hist = <<>>
Do(o) == hist' = Append(hist, o) /\ (Len(hist') = Depth => Out(hist'))
RandNext ==
  /\ Len(hist) < Depth
  /\ LET k == Weights[RandomElement(1..Len(Weights))] IN \E o \in {RandomElement(OpsFor(k))} : Do(o)
AllNext ==
  /\ Len(hist) < Depth
  /\ \E k \in {Weights[i] : i \in 1..Len(Weights)} : \E o \in OpsFor(k) : Do(o)
=============================================================================
