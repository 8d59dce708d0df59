------------------------------ MODULE StackMC -------------------------------
EXTENDS Stack
CONSTANTS MaxCalls, MaxKept, Skips, Maxes
Base == <<[F("r", "goexit") EXCEPT !.file = "r", !.line = 9]>>
VARIABLE at   \* ghost: the stack at the time of each capture, with its parameters
MCInit == SInit /\ at = <<>>
MCNext ==
  \/ Len(calls) < MaxCalls /\ (\E n \in {"f", "g"} : Enter("p", n)) /\ UNCHANGED at
  \/ Leave /\ UNCHANGED at
  \/ Len(calls) > 0 /\ (\E l \in {1} : At("x", l)) /\ UNCHANGED at
  \/ Len(calls) > 0 /\ Len(at) < MaxKept /\ \E s \in Skips, m \in Maxes :
       Capture(Base, Len(at) + 1, s, m) /\ at' = Append(at, [calls |-> calls, s |-> s, m |-> m])
MCSpec == MCInit /\ [][MCNext]_<<svars, at>>
InvBound == \A t \in DOMAIN kept : Len(kept[t]) <= at[t].m
(* innermost first, starting at the capturing caller, consecutive, complete  *)
InvChain == \A t \in DOMAIN kept : LET c == at[t].calls IN \A i \in 1..Len(kept[t]) :
              kept[t][i] = IF i + at[t].s <= Len(c) THEN c[Len(c) + 1 - i - at[t].s] ELSE Base[i + at[t].s - Len(c)]
InvComplete == \A t \in DOMAIN kept : Len(kept[t]) < at[t].m => Len(kept[t]) + at[t].s >= Len(at[t].calls) + Len(Base)
Stable == [][\A t \in DOMAIN kept : kept'[t] = kept[t]]_<<svars, at>>
=============================================================================
