----------------------------- MODULE StatsdGen ------------------------------
(* Operation sequences for the sequential StatsD driver. Names, durations    *)
(* and gauges are abstract ids the driver makes concrete.                    *)
EXTENDS Statsd, Json, CSV, IOUtils
CONSTANTS Depth, Weights, Jobs, Evs, Vs, Gs, Sts, Advs
VARIABLE hist
W10 == <<"event", "err", "timing", "timing", "timing", "gauge", "gauge", "complete", "complete", "drain", "adv">>
W11 == <<"event", "event", "event", "event", "event", "event", "event", "err", "timing", "gauge", "complete", "drain", "adv">>
X10 == <<"event", "err", "timing", "gauge", "complete">>
OpsFor(k) ==
  CASE k \in {"event", "err"} -> [op : {"emit"}, k : {k}, job : Jobs, ev : Evs]
    [] k = "timing" -> [op : {"emit"}, k : {k}, job : Jobs, ev : Evs, v : Vs]
    [] k = "gauge" -> [op : {"emit"}, k : {k}, job : Jobs, ev : Evs, g : Gs]
    [] k = "complete" -> [op : {"emit"}, k : {k}, job : Jobs, st : Sts, v : Vs]
    [] k = "drain" -> [op : {"drain"}]
    [] k = "adv" -> [op : {"adv"}, dt : Advs]
Out(h) == CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.GEN_FILE)
GInit == SInit /\ hist = <<>>
Do(o) == UNCHANGED svars /\ hist' = Append(hist, o) /\ (Len(hist') = Depth => Out(hist'))
RandNext ==
  /\ Len(hist) < Depth
  /\ LET k == Weights[RandomElement(1..Len(Weights))] IN \E o \in {RandomElement(OpsFor(k))} : Do(o)
AllNext ==
  /\ Len(hist) < Depth
  /\ \E k \in {Weights[i] : i \in 1..Len(Weights)} : \E o \in OpsFor(k) : Do(o)
=============================================================================
