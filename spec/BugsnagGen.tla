----------------------------- MODULE BugsnagGen -----------------------------
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils, FiniteSets
CONSTANTS Depth, Weights, Jobs, Evs, Keys, Vals, Outs
VARIABLES hist, nx   \* nx: errors created so far
W15 == <<"fresh", "fresh", "fresh", "again", "again", "mute", "other", "kvset", "mapset", "script", "adv", "burst">>
X15 == <<"fresh", "again", "mute", "kvset", "script">>
OpsFor(k) ==
  CASE k = "fresh" -> [op : {"rec"}, how : {"fresh"}, x : {nx + 1}, job : Jobs, ev : Evs, call : {"EventErr", "EventErrKv"}, m : {"m1", "m2"}, fn : {"siteA", "siteB", "siteC"}]
    [] k = "mute" -> [op : {"rec"}, how : {"mute"}, x : {nx + 1}, job : Jobs, ev : Evs, call : {"EventErr", "EventErrKv"}, m : {"m1"}, fn : {"siteA"}]
    [] k = "again" -> IF nx = 0 THEN {} ELSE [op : {"rec"}, how : {"again"}, x : 1..nx, job : Jobs, ev : Evs, call : {"EventErr", "EventErrKv"}, m : {"m1", "m2"}, fn : {"siteA", "siteB"}]
    [] k = "other" -> [op : {"other"}, k : {"event", "timing", "gauge", "complete"}, job : Jobs, ev : Evs]
    [] k = "kvset" -> [op : {"kvset"}, job : Jobs \cup {"stream"}, key : Keys, val : Vals]
    [] k = "mapset" -> [op : {"mapset"}, m : {"m1", "m2"}, key : Keys, val : Vals]
    [] k = "script" -> [op : {"script"}, out : Outs]
    [] k = "adv" -> [op : {"adv"}, dt : {1, 20, 100}]
    [] k = "burst" -> [op : {"burst"}, x : {nx + 1}, n : {5, 40}, job : Jobs, ev : Evs]
Out(h) == CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.GEN_FILE)
GInit == hist = <<>> /\ nx = 0
Do(o) == /\ hist' = Append(hist, o) /\ (Len(hist') = Depth => Out(hist'))
         /\ nx' = CASE o.op = "rec" /\ o.how # "again" -> nx + 1 [] o.op = "burst" -> nx + o.n [] OTHER -> nx
RandNext ==
  /\ Len(hist) < Depth
  /\ LET ks == SelectSeq(Weights, LAMBDA k : OpsFor(k) # {})
         k == ks[RandomElement(1..Len(ks))] IN \E o \in {RandomElement(OpsFor(k))} : Do(o)
AllNext ==
  /\ Len(hist) < Depth
  /\ \E k \in {Weights[i] : i \in 1..Len(Weights)} : \E o \in OpsFor(k) : Do(o)
=============================================================================
