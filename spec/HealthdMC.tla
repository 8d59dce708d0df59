----------------------------- MODULE HealthdMC ------------------------------
(* The algorithm of healthd (consume, dedupe by serial number, mark dirty,   *)
(* recalculate, purge, truncate) refines what Healthd promises: when nothing *)
(* waits for recalculation, what is listed is the merge of the latest data   *)
(* of every host and instance, each counted once. Aggregations are reduced   *)
(* to one counter here (AggOps covers their algebra).                        *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
CONSTANTS Hosts, Keep, MaxI, MaxClk, MaxRec, MaxInst, Purge
VARIABLES clk,    \* current interval
          hs,     \* host |-> [inst, data: start |-> [ser, n]]
          fly,    \* host |-> answer under way ("none" or a snapshot)
          out,    \* hosts whose answer of this round is outstanding
          hagg,   \* implementation: <<start, inst, host>> |-> [ser, n]
          dirty,  \* implementation: starts to recalculate
          view,   \* implementation: start |-> total
          lat,    \* ghost: latest data, never purged
          nrec    \* ghost: start |-> number of recordings
vars == <<clk, hs, fly, out, hagg, dirty, view, lat, nrec>>
E == [x \in {} |-> 0]
Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Only(f, S) == [x \in (DOMAIN f) \cap S |-> f[x]]
None == [no |-> TRUE]
Init == /\ clk = 0 /\ hs = [h \in Hosts |-> [inst |-> 1, data |-> E]] /\ fly = [h \in Hosts |-> None] /\ out = {}
        /\ hagg = E /\ dirty = {} /\ view = E /\ lat = E /\ nrec = E
Window == (clk - Keep + 1)..clk
Tot(f, S) == FoldSet(LAMBDA k, a : f[k].n + a, 0, S)
TotR == FoldSet(LAMBDA s, a : nrec[s] + a, 0, DOMAIN nrec)
Rec(h) == /\ TotR < MaxRec
          /\ hs' = [hs EXCEPT ![h].data = Put(Only(@, Window), clk, IF clk \in DOMAIN @ THEN [ser |-> @[clk].ser + 1, n |-> @[clk].n + 1] ELSE [ser |-> 1, n |-> 1])]
          /\ nrec' = Put(nrec, clk, IF clk \in DOMAIN nrec THEN nrec[clk] + 1 ELSE 1)
          /\ UNCHANGED <<clk, fly, out, hagg, dirty, view, lat>>
Restart(h) == /\ hs[h].inst < MaxInst /\ hs' = [hs EXCEPT ![h] = [inst |-> @.inst + 1, data |-> E]]
              /\ UNCHANGED <<clk, fly, out, hagg, dirty, view, lat, nrec>>
(* an interval is longer than a poll takes                                   *)
Advance == /\ clk < MaxClk /\ clk' = clk + 1
           /\ \A h \in Hosts : fly[h] # None => fly[h].clk = clk
           /\ UNCHANGED <<hs, fly, out, hagg, dirty, view, lat, nrec>>
(* a round begins only after the previous one was answered and recalculated  *)
Round == /\ out = {} /\ dirty = {} /\ out' = Hosts
         /\ hagg' = IF Purge THEN Only(hagg, {k \in DOMAIN hagg : k[1] > clk - Keep}) ELSE hagg
         /\ UNCHANGED <<clk, hs, fly, dirty, view, lat, nrec>>
Snap(h) == /\ h \in out /\ fly[h] = None
           /\ fly' = [fly EXCEPT ![h] = [clk |-> clk, inst |-> hs[h].inst, data |-> Only(hs[h].data, Window)]]
           /\ UNCHANGED <<clk, hs, out, hagg, dirty, view, lat, nrec>>
Fail(h) == /\ h \in out /\ out' = out \ {h} /\ fly' = [fly EXCEPT ![h] = None]
           /\ UNCHANGED <<clk, hs, hagg, dirty, view, lat, nrec>>
Good(h) ==
  /\ h \in out /\ fly[h] # None
  /\ LET f == fly[h]
         K == {<<s, f.inst, h>> : s \in DOMAIN f.data}
         new == {k \in K : k \notin DOMAIN hagg \/ hagg[k].ser # f.data[k[1]].ser} IN
     /\ hagg' = [k \in (DOMAIN hagg) \cup new |-> IF k \in new THEN f.data[k[1]] ELSE hagg[k]]
     /\ dirty' = dirty \cup {k[1] : k \in new}
     /\ lat' = [k \in (DOMAIN lat) \cup K |-> IF k \in K THEN f.data[k[1]] ELSE lat[k]]
  /\ out' = out \ {h} /\ fly' = [fly EXCEPT ![h] = None]
  /\ UNCHANGED <<clk, hs, view, nrec>>
Trunc(v) == Only(v, {s \in DOMAIN v : Cardinality({u \in DOMAIN v : u > s}) < MaxI})
Recalc == /\ dirty # {}
          /\ view' = Trunc([s \in (DOMAIN view) \cup dirty |->
                       IF s \in dirty THEN Tot(hagg, {k \in DOMAIN hagg : k[1] = s}) ELSE view[s]])
          /\ dirty' = {} /\ UNCHANGED <<clk, hs, fly, out, hagg, lat, nrec>>
Next == Advance \/ Round \/ Recalc \/ \E h \in Hosts : Rec(h) \/ Restart(h) \/ Snap(h) \/ Fail(h) \/ Good(h)
Spec == Init /\ [][Next]_vars
Should == Trunc([s \in {k[1] : k \in DOMAIN lat} |-> Tot(lat, {k \in DOMAIN lat : k[1] = s})])
InvExact == dirty = {} => view = Should                                        \* C18
InvClean == \A s \in (DOMAIN view) \ dirty : s \in DOMAIN Should => view[s] = Should[s]
InvOnce == \A s \in DOMAIN view : view[s] <= nrec[s]
InvLen == Cardinality(DOMAIN view) <= MaxI
(* C20: a failing host changes nothing                                       *)
FailHarmless == [][\A h \in Hosts : Fail(h) => UNCHANGED <<hagg, view, dirty>>]_vars
=============================================================================
