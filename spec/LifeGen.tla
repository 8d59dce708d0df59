------------------------------- MODULE LifeGen ------------------------------
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS Depth, Weights, Ns
VARIABLE hist
WL == <<"emit", "emit", "emit", "use", "stall", "adv", "adv", "stop", "storm">>
XL == <<"emit", "use", "stall", "adv", "stop">>
OpsFor(k) ==
  CASE k = "emit" -> [op : {"emit"}, n : Ns]
    [] k = "storm" -> [op : {"storm"}, n : Ns]
    [] k = "stall" -> [op : {"stall"}, d : {3, 20}]
    [] k = "adv" -> [op : {"adv"}, dt : {1, 5, 15}]
    [] OTHER -> [op : {k}]
Out(h) == CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.GEN_FILE)
GInit == hist = <<>>
Do(o) == hist' = Append(hist, o) /\ (Len(hist') = Depth => Out(hist'))
RandNext ==
  /\ Len(hist) < Depth
  /\ LET k == Weights[RandomElement(1..Len(Weights))] IN \E o \in {RandomElement(OpsFor(k))} : Do(o)
AllNext ==
  /\ Len(hist) < Depth
  /\ \E k \in {Weights[i] : i \in 1..Len(Weights)} : \E o \in OpsFor(k) : Do(o)
=============================================================================
