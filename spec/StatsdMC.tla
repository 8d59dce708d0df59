------------------------------ MODULE StatsdMC ------------------------------
(* C10: facts about the lines themselves, over all small recordings and      *)
(* option combinations, and a byte-accurate model of packet assembly.        *)
EXTENDS Statsd
CONSTANTS Names, Pref, Durs, Gauges
VARIABLES c, e
mcvars == <<svars, c, e>>
MCNames == {"", "a", "b.c", "x y"}
MCPref == {"", "p"}
D(neg, hi, lo, ns) == [neg |-> neg, hi |-> hi, lo |-> lo, ns |-> ns]
MCDurs == {D(FALSE, 0, 0, 0), D(FALSE, 0, 0, 4999), D(FALSE, 0, 0, 5000), D(FALSE, 0, 9, 994999), D(FALSE, 0, 9, 999999),
           D(FALSE, 0, 10, 0), D(FALSE, 0, 10, 999999), D(FALSE, 1, 2, 3), D(FALSE, 0, 999999, 999999), D(TRUE, 0, 0, 1), D(TRUE, 0, 12, 344999)}
MCGauges == {[t |-> "milli", neg |-> FALSE, k |-> 100], [t |-> "milli", neg |-> TRUE, k |-> 1234], [t |-> "int", s |-> "-7"], [t |-> "small", s |-> "0.0001"]}
Cfgs == [prefix : Pref, san : {"default", "bracket"}, skiptop : BOOLEAN, skipnested : BOOLEAN]
Recs == [k : {"event", "err"}, job : Names, ev : Names] \cup [k : {"timing"}, job : Names, ev : Names, v : Durs]
        \cup [k : {"gauge"}, job : Names, ev : Names, g : Gauges] \cup [k : {"complete"}, job : Names, st : {"success", "validation_error"}, v : Durs]
MCInit == SInit /\ c \in Cfgs /\ e \in Recs
MCNext == UNCHANGED mcvars
Count == Len(Lines(c, e))
InvCount == IF e.k = "complete" THEN Count = 1 ELSE Count = (IF c.skiptop THEN 0 ELSE 1) + (IF c.skipnested THEN 0 ELSE 1)
(* name chars are clean, exactly one ':' and one '|' (default sanitizer)     *)
CharCount(s, x) == Cardinality({i \in 1..Len(s) : Ch(s, i) = x})
InvClean == c.san = "default" =>
  \A i \in 1..Count : \A x \in Lines(c, e)[i] :
     /\ CharCount(x, ":") = 1 /\ CharCount(x, "|") = 1
     /\ \A j \in 1..Len(x) : Ch(x, j) \in OKChars \cup {"$", ":", "|", "-"}
InvNoLeadingDot == \A i \in 1..Count : \A x \in Lines(c, e)[i] :
  (\A n \in {e.job} \cup (IF e.k = "complete" THEN {} ELSE {e.ev}) : n = "" \/ Ch(n, 1) # ".") => Ch(x, 1) # "."
InvOneValue == \A i \in 1..Count : Lines(c, e)[i] # {} /\ Cardinality(Lines(c, e)[i]) <= 4
=============================================================================
