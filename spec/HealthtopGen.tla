---------------------------- MODULE HealthtopGen ----------------------------
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS Depth, Weights, Modes, Delays, Sizes
VARIABLE hist
W23 == <<"adv", "adv", "adv", "mode", "mode", "delay", "size">>
X23 == <<"adv", "mode">>
OpsFor(k) ==
  CASE k = "mode" -> [op : {k}, m : Modes]
    [] k = "delay" -> [op : {k}, d : Delays]
    [] k = "size" -> [op : {k}, h : Sizes]
    [] OTHER -> [op : {k}, s : {1, 2, 3}]
Out(h) == CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.GEN_FILE)
GInit == hist = <<>>
Do(o) == hist' = Append(hist, o) /\ (Len(hist') = Depth => Out(hist'))
RandNext ==
  /\ Len(hist) < Depth
  /\ LET k == Weights[RandomElement(1..Len(Weights))] IN \E o \in {RandomElement(OpsFor(k))} : Do(o)
AllNext ==
  /\ Len(hist) < Depth
  /\ \E k \in {Weights[i] : i \in 1..Len(Weights)} : \E o \in OpsFor(k) : Do(o)
=============================================================================
