----------------------------- MODULE HealthdGen -----------------------------
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS Depth, Weights, Hosts, Jobs, Evs, Vs, Sts, Modes, Delays, Advs
VARIABLE hist
W18 == <<"event", "err", "timing", "gauge", "complete", "complete", "complete", "adv", "adv", "adv", "adv", "adv", "q", "q", "q", "restart", "mode", "delay">>
W19 == <<"event", "complete", "complete", "complete", "complete", "complete", "complete", "timing", "adv", "adv", "q", "restart">>
W20 == <<"event", "complete", "gauge", "timing", "adv", "adv", "adv", "adv", "q", "q", "q", "mode", "mode", "delay", "restart">>
X18 == <<"event", "adv", "q", "restart">>
X20 == <<"event", "adv", "q", "mode">>
Modes18 == {"ok", "refused", "codetext", "noaggs"}
Modes20 == {"ok", "refused", "code", "codetext", "readerr", "slowbody", "trunc", "empty", "garbage", "null", "array", "wrongtype",
            "badstart", "zerodur", "negdur", "nullagg", "nulljob", "nulltimer", "nullerr", "nomaps", "noaggs", "trail"}
OpsFor(k) ==
  CASE k \in {"event", "err"} -> [op : {"rec"}, k : {k}, h : Hosts, job : Jobs, ev : Evs]
    [] k \in {"timing", "gauge"} -> [op : {"rec"}, k : {k}, h : Hosts, job : Jobs, ev : Evs, v : Vs]
    [] k = "complete" -> [op : {"rec"}, k : {k}, h : Hosts, job : Jobs, st : Sts, v : Vs]
    [] k = "restart" -> [op : {k}, h : Hosts]
    [] k = "mode" -> [op : {k}, h : Hosts, m : Modes]
    [] k = "delay" -> [op : {k}, h : Hosts, d : Delays]
    [] k = "adv" -> [op : {k}, dt : Advs]
    [] OTHER -> [op : {k}]
Out(h) == CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.GEN_FILE)
GInit == hist = <<>>
Do(o) == hist' = Append(hist, o) /\ (Len(hist') = Depth => Out(hist'))
RandNext ==
  /\ Len(hist) < Depth
  /\ LET k == Weights[RandomElement(1..Len(Weights))] IN \E o \in {RandomElement(OpsFor(k))} : Do(o)
AllNext ==
  /\ Len(hist) < Depth
  /\ \E k \in {Weights[i] : i \in 1..Len(Weights)} : \E o \in OpsFor(k) : Do(o)
=============================================================================
