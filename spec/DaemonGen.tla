----------------------------- MODULE DaemonGen ------------------------------
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS Depth, Ups, Downs
VARIABLE hist
Confs == [op : {"run"}, up : Ups, down : Downs, defaults : {FALSE}, same : {FALSE}] \cup [op : {"run"}, up : {1}, down : {1}, defaults : {TRUE}, same : {FALSE}] \cup [op : {"run"}, up : {0, 1}, down : {0, 1}, defaults : {FALSE}, same : {TRUE}]
Out(h) == CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.GEN_FILE)
GInit == hist = <<>>
Do(o) == hist' = Append(hist, o) /\ (Len(hist') = Depth => Out(hist'))
RandNext == Len(hist) < Depth /\ \E o \in {RandomElement(Confs)} : Do(o)
AllNext == Len(hist) < Depth /\ \E o \in Confs : Do(o)
=============================================================================
