------------------------------- MODULE MixGen -------------------------------
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS Depth, Weights, Kinds, Jobs, Evs, Vs, Gs, Sts, Hows, Errs, Keys, Vals, MapArgs, Advs, Modes
VARIABLE hist
W25 == <<"event", "event", "err", "err", "err", "timing", "timing", "gauge", "complete", "complete", "run", "run", "attach", "attach", "out", "skv", "jkv", "mapset", "newjob", "adv", "adv", "poll">>
X25 == <<"attach", "err", "run", "event">>
GenGs == {-3, 0, 1, 2, 9, 200}
OpsFor(k) ==
  CASE k = "event" -> [op : {"rec"}, k : {k}, job : Jobs, ev : Evs, kv : MapArgs]
    [] k = "err" -> [op : {"rec"}, k : {k}, job : Jobs, ev : Evs, kv : MapArgs, how : Hows, x : Errs]
    [] k = "timing" -> [op : {"rec"}, k : {k}, job : Jobs, ev : Evs, kv : MapArgs, v : Vs]
    [] k = "gauge" -> [op : {"rec"}, k : {k}, job : Jobs, ev : Evs, kv : MapArgs, g : Gs]
    [] k = "complete" -> [op : {"rec"}, k : {k}, job : Jobs, st : Sts, kv : MapArgs]
    [] k = "run" -> [op : {"run"}, job : Jobs \ {"stream"}, out : {"ok", "error", "panic"}, v : Advs]
    [] k = "attach" -> [op : {"attach"}, kind : Kinds]
    [] k = "out" -> [op : {"out"}, kind : Kinds \ {"app", "poll", "statsd", "dead"}, mode : Modes]
    [] k = "skv" -> [op : {"skv"}, key : Keys, val : Vals]
    [] k = "jkv" -> [op : {"jkv"}, job : Jobs, key : Keys, val : Vals]
    [] k = "mapset" -> [op : {"mapset"}, m : MapArgs \ {""}, key : Keys, val : Vals]
    [] k = "newjob" -> [op : {"newjob"}, job : Jobs \ {"stream"}]
    [] k = "adv" -> [op : {"adv"}, dt : Advs]
    [] k = "poll" -> [op : {"poll"}]
Out(h) == CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.GEN_FILE)
GInit == hist = <<>>
Do(o) == hist' = Append(hist, o) /\ (Len(hist') = Depth => Out(hist'))
RandNext ==
  /\ Len(hist) < Depth
  /\ LET k == Weights[RandomElement(1..Len(Weights))] IN \E o \in {RandomElement(OpsFor(k))} : Do(o)
AllNext ==
  /\ Len(hist) < Depth
  /\ \E k \in {Weights[i] : i \in 1..Len(Weights)} : \E o \in OpsFor(k) : Do(o)
=============================================================================
