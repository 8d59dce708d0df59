----------------------------- MODULE StatsdQGen -----------------------------
(* Environment scripts for the concurrent StatsD driver.                     *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS Depth, Weights, RecIds, Ns, MaxDrains
VARIABLES hist, gatedG, drainsG, stopG
gvars == <<gatedG, drainsG, stopG>>
W11 == <<"emit", "emit", "emit", "emit", "drain", "drain", "gate", "gate", "release", "adv", "storm", "burst">>
W12 == <<"emit", "emit", "drain", "drain", "drain", "gate", "gate", "release", "adv", "storm", "stop", "stormstop">>
X12 == <<"emit", "drain", "gate", "release", "stop">>
B2(b) == IF b THEN 1 ELSE 0
OpsFor(k) ==
  CASE k = "emit" -> [op : {"emit"}, r : RecIds, n : Ns]
    [] k = "burst" -> [op : {"emit"}, r : RecIds, n : {3000, 9000}]
    [] k = "drain" -> IF drainsG < MaxDrains THEN {[op |-> "drain", d |-> drainsG + 1]} ELSE {}
    [] k = "gate" -> IF gatedG \/ stopG THEN {} ELSE {[op |-> "gate"]}
    [] k = "release" -> IF gatedG THEN {[op |-> "release"]} ELSE {}
    [] k = "adv" -> [op : {"adv"}, dt : {1, 60, 100}]
    [] k = "storm" -> IF drainsG + 3 <= MaxDrains /\ ~stopG THEN {[op |-> "storm", n |-> nn, ds |-> dd, d |-> drainsG + 1, stop |-> FALSE] : nn \in Ns, dd \in 1..3} ELSE {}
    [] k = "stormstop" -> IF drainsG + 3 <= MaxDrains /\ ~stopG THEN {[op |-> "storm", n |-> nn, ds |-> dd, d |-> drainsG + 1, stop |-> TRUE] : nn \in Ns, dd \in 0..3} ELSE {}
    [] k = "stop" -> IF stopG THEN {} ELSE {[op |-> "stop"]}
OK(o) == ~stopG \/ o.op \in {"release", "adv", "drain"}
Out(h) == CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.GEN_FILE)
GInit == hist = <<>> /\ gatedG = FALSE /\ drainsG = 0 /\ stopG = FALSE
Do(o) == /\ OK(o)
         /\ gatedG' = CASE o.op = "gate" -> TRUE [] o.op = "release" -> FALSE [] OTHER -> gatedG
         /\ drainsG' = drainsG + (IF o.op = "drain" THEN 1 ELSE IF o.op = "storm" THEN o.ds ELSE 0)
         /\ stopG' = (stopG \/ o.op = "stop" \/ (o.op = "storm" /\ o.stop))
         /\ hist' = Append(hist, o) /\ (Len(hist') = Depth => Out(hist'))
AllOps(k) == {o \in OpsFor(k) : OK(o)}
RandNext ==
  /\ Len(hist) < Depth
  /\ LET ks == SelectSeq(Weights, LAMBDA k : AllOps(k) # {})
         k == ks[RandomElement(1..Len(ks))] IN \E o \in {RandomElement(AllOps(k))} : Do(o)
AllNext ==
  /\ Len(hist) < Depth
  /\ \E k \in {Weights[i] : i \in 1..Len(Weights)} : \E o \in AllOps(k) : Do(o)
=============================================================================
