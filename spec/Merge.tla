------------------------------- MODULE Merge -------------------------------
(* Merging and cloning aggregations (interval_aggregation_merge.go, _clone). *)
(* Registers hold aggregations; sources are polling sinks producing them.    *)
EXTENDS AggOps

VARIABLES src,   \* source |-> [a: aggregation, lg: ghost log of recordings]
          regs   \* register |-> [a: aggregation, lg: ghost log]
mvars == <<src, regs>>
CONSTANT GHOST

Lg(x) == IF GHOST THEN x ELSE <<>>
Empty == [a |-> ZeroAgg, lg |-> <<>>]

Emit(o) == /\ src' = [src EXCEPT ![o.s] = [a |-> Apply(@.a, o), lg |-> Lg(Append(@.lg, o))]]
           /\ UNCHANGED regs
Take(o) == regs' = [regs EXCEPT ![o.r] = src[o.s]] /\ UNCHANGED src
New(o) == regs' = [regs EXCEPT ![o.r] = Empty] /\ UNCHANGED src
CloneOp(o) == regs' = [regs EXCEPT ![o.r] = regs[o.q]] /\ UNCHANGED src
MergeOp(o) == /\ regs' = [regs EXCEPT ![o.r] = [a |-> Merge(@.a, regs[o.q].a), lg |-> Lg(@.lg \o regs[o.q].lg)]]
              /\ UNCHANGED src
(* The owner of an aggregation changes everything in it by hand.             *)
PokeT(t) == [t EXCEPT !.c = @ + 1, !.s = @ + 1]
PokeM(m) == [m EXCEPT !.ev = [x \in DOMAIN @ |-> @[x] + 1], !.er = [x \in DOMAIN @ |-> @[x] + 1],
                      !.ga = [x \in DOMAIN @ |-> "-77"], !.ti = [x \in DOMAIN @ |-> PokeT(@[x])]]
PokeJ(j) == [PokeM(j) EXCEPT !.tm = PokeT(@), !.st = [x \in Statuses |-> @[x] + 1]]
Poke(a) == [PokeM(a) EXCEPT !.jobs = [x \in DOMAIN @ |-> PokeJ(@[x])]]
PokeOp(o) == regs' = [regs EXCEPT ![o.r] = [a |-> Poke(@.a), lg |-> <<>>]] /\ UNCHANGED src

CONSTANTS Regs, Srcs, MaxN, Jobs, Evs, Vs, Gs, Sts, OpKinds
Emits(k) ==
  CASE k \in {"event", "err"} -> [op : {"emit"}, s : Srcs, k : {k}, job : Jobs, ev : Evs, v : {0}, g : {""}, st : {""}]
    [] k = "timing"   -> [op : {"emit"}, s : Srcs, k : {k}, job : Jobs, ev : Evs, v : Vs, g : {""}, st : {""}]
    [] k = "gauge"    -> [op : {"emit"}, s : Srcs, k : {k}, job : Jobs, ev : Evs, v : {0}, g : Gs, st : {""}]
    [] k = "complete" -> [op : {"emit"}, s : Srcs, k : {k}, job : Jobs, ev : {""}, v : Vs, g : {""}, st : Sts]
OpsFor(k) ==
  CASE k \in Kinds -> Emits(k)
    [] k = "take" -> [op : {"take"}, r : Regs, s : Srcs]
    [] k = "new" -> [op : {"new"}, r : Regs]
    [] k = "clone" -> {o \in [op : {"clone"}, r : Regs, q : Regs] : o.r # o.q}
    [] k = "merge" -> {o \in [op : {"merge"}, r : Regs, q : Regs] : o.r # o.q}
    [] k = "poke" -> [op : {"poke"}, r : Regs]
Step(o) ==
  CASE o.op = "emit" -> Emit(o)
    [] o.op = "take" -> Take(o)
    [] o.op = "new" -> New(o)
    [] o.op = "clone" -> CloneOp(o)
    [] o.op = "merge" -> MergeOp(o)
    [] o.op = "poke" -> PokeOp(o)
Init == src = [s \in Srcs |-> Empty] /\ regs = [r \in Regs |-> Empty]
Next == \E k \in OpKinds : \E o \in OpsFor(k) : Step(o)
Bound == /\ \A r \in Regs : Len(regs[r].lg) <= MaxN
         /\ \A s \in Srcs : Len(src[s].lg) <= 2

(* Merging = recording both sets together (C08).                             *)
InvHom == \A r \in Regs : regs[r].a = ApplyAll(ZeroAgg, regs[r].lg)
InvSane == \A r \in Regs : Balanced(regs[r].a) /\ Sane(regs[r].a)
(* Counts, sums, extremes do not depend on the order of merging.             *)
NoGa(a) == [a EXCEPT !.ga = EmptyMap, !.jobs = [j \in DOMAIN @ |-> [@[j] EXCEPT !.ga = EmptyMap]]]
InvCommute == \A r, q \in Regs : NoGa(Merge(regs[r].a, regs[q].a)) = NoGa(Merge(regs[q].a, regs[r].a))
InvAssoc == \A r, q, p \in Regs : Merge(Merge(regs[r].a, regs[q].a), regs[p].a) = Merge(regs[r].a, Merge(regs[q].a, regs[p].a))
InvUnit == \A r \in Regs : Merge(ZeroAgg, regs[r].a) = regs[r].a /\ Merge(regs[r].a, ZeroAgg) = regs[r].a
=============================================================================
