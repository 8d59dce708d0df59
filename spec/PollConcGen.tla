---------------------------- MODULE PollConcGen -----------------------------
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS Depth, Ns
VARIABLE hist
Phases == {"burst", "mixed", "sleep"}
OpsFor(k) ==
  CASE k = "burst" -> [op : {"phase"}, n : Ns \X Ns \X Ns, polls : {0, 1, 2}, http : {FALSE}, sleep : {FALSE}]
    [] k = "mixed" -> [op : {"phase"}, n : {0, 10, 37, 200, 1000} \X {1, 150} \X {0, 90, 500}, polls : {1, 3, 6}, http : {TRUE, FALSE}, sleep : {FALSE}]
    [] k = "sleep" -> [op : {"phase"}, n : {0, 7, 25} \X {3, 40} \X {0, 60}, polls : {1, 3}, http : {TRUE, FALSE}, sleep : {TRUE}]
Out(h) == CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.GEN_FILE)
GInit == hist = <<>>
Do(o) == hist' = Append(hist, o) /\ (Len(hist') = Depth => Out(hist'))
RandNext ==
  /\ Len(hist) < Depth
  /\ \E k \in {RandomElement(Phases)} : \E o \in {RandomElement(OpsFor(k))} : Do(o)
=============================================================================
