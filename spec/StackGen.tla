------------------------------ MODULE StackGen ------------------------------
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS Depth, Weights, Fns, Leaves, Skips, Maxes, Deeps, Ts, Concs
VARIABLE hist
W21 == <<"call", "call", "call", "call", "ret", "ret", "capture", "capture", "capture", "read", "read", "max", "deep">>
X21 == <<"call", "capture">>
OpsFor(k) ==
  CASE k = "call" -> [op : {"call"}, fn : Fns]
    [] k = "ret" -> [op : {"ret"}]
    [] k = "capture" -> [op : {"capture"}, fn : Leaves, skip : Skips]
    [] k = "read" -> [op : {"read"}, t : Ts, conc : Concs]
    [] k = "max" -> [op : {"max"}, n : Maxes]
    [] k = "deep" -> [op : {"deep"}, n : Deeps]
Out(h) == CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.GEN_FILE)
GInit == hist = <<>>
Do(o) == hist' = Append(hist, o) /\ (Len(hist') = Depth => Out(hist'))
RandNext ==
  /\ Len(hist) < Depth
  /\ LET k == Weights[RandomElement(1..Len(Weights))] IN \E o \in {RandomElement(OpsFor(k))} : Do(o)
AllNext ==
  /\ Len(hist) < Depth
  /\ \E k \in {Weights[i] : i \in 1..Len(Weights)} : \E o \in OpsFor(k) : Do(o)
=============================================================================
