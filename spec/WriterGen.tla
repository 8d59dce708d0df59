----------------------------- MODULE WriterGen ------------------------------
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils, FiniteSets
CONSTANTS Depth, Weights, Jobs, Evs, Vs, Gs, Sts, Errs, Keys, Vals, Advs
VARIABLE hist
W13 == <<"event", "err", "timing", "gauge", "complete", "adv", "storm">>
X13 == <<"event", "err", "timing", "gauge", "complete">>
KvMaps == UNION {[S -> Vals] : S \in SUBSET Keys}
NoKv == "none"
Kv == IF Cardinality(Keys) > 2 THEN {RandomElement(KvMaps), RandomElement(KvMaps)} ELSE KvMaps
Pairs(m) == LET RECURSIVE P(_) P(S) == IF S = {} THEN <<>> ELSE LET k == CHOOSE x \in S : TRUE IN <<<<k, m[k]>>>> \o P(S \ {k}) IN P(DOMAIN m)
KvArg == {Pairs(m) : m \in Kv}
OpsFor(k) ==
  CASE k = "event" -> [op : {"emit"}, k : {k}, job : Jobs, ev : Evs, kv : KvArg, nilkv : BOOLEAN]
    [] k = "err" -> [op : {"emit"}, k : {k}, job : Jobs, ev : Evs, err : Errs, kv : KvArg, nilkv : BOOLEAN]
    [] k = "timing" -> [op : {"emit"}, k : {k}, job : Jobs, ev : Evs, v : Vs, kv : KvArg, nilkv : BOOLEAN]
    [] k = "gauge" -> [op : {"emit"}, k : {k}, job : Jobs, ev : Evs, g : Gs, kv : KvArg, nilkv : BOOLEAN]
    [] k = "complete" -> [op : {"emit"}, k : {k}, job : Jobs, st : Sts, v : Vs, kv : KvArg, nilkv : BOOLEAN]
    [] k = "adv" -> [op : {"adv"}, dt : Advs]
    [] k = "storm" -> [op : {"storm"}, n : {4, 12}]
Out(h) == CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.GEN_FILE)
GInit == hist = <<>>
Do(o) == hist' = Append(hist, o) /\ (Len(hist') = Depth => Out(hist'))
RandNext ==
  /\ Len(hist) < Depth
  /\ LET k == Weights[RandomElement(1..Len(Weights))] IN \E o \in {RandomElement(OpsFor(k))} : Do(o)
AllNext ==
  /\ Len(hist) < Depth
  /\ \E k \in {Weights[i] : i \in 1..Len(Weights)} : \E o \in OpsFor(k) : Do(o)
=============================================================================
