--------------------------------- MODULE Mix ---------------------------------
(* An application with sinks of all kinds attached to one stream: the story   *)
(* is told once, and each sink tells it in its own way, from the moment it    *)
(* was attached, whatever happens to the outputs of the others.               *)
(*                                                                            *)
(* A recording r is [k, job, ev, v, g, st, err, kvs, t, due]: v a duration in *)
(* units of ms milliseconds, g a gauge in halves, due whether the error is    *)
(* new and unmuted.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CONSTANT MicroSign
Ops == INSTANCE AggOps
WR  == INSTANCE Writer
SD  == INSTANCE Statsd WITH now <- 0, rest <- <<>>
LB  == INSTANCE Librato WITH now <- 0, pend <- <<>>

VARIABLES
  hist,    \* everything recorded so far
  sinks    \* the sinks, in order: [kind, from: how much had been recorded, cfg]
mvars == <<hist, sinks>>
MInit == hist = <<>> /\ sinks = <<>>
Attach(s) == sinks' = Append(sinks, [kind |-> s.kind, from |-> Len(hist), cfg |-> s]) /\ hist' = hist
Told(rs) == hist' = hist \o rs /\ sinks' = sinks

(* the part of the story a sink is told                                       *)
Story(s) == SubSeq(hist, s.from + 1, Len(hist))

(* ---- the ways to tell it --------------------------------------------------*)
Abs(n) == IF n < 0 THEN -n ELSE n
GaugeText(g) == IF g = 0 THEN "0" ELSE (IF g < 0 THEN "-" ELSE "") \o ToString(Abs(g) \div 2) \o (IF g % 2 = 0 THEN "" ELSE ".5")
Nanos(n) == IF n = 0 THEN "0" ELSE ToString(n) \o "000000"
Written(r, ms) == [k |-> r.k, job |-> r.job, ev |-> r.ev, err |-> r.err, st |-> r.st, kvs |-> r.kvs, t |-> r.t, g |-> GaugeText(r.g),
                   v |-> [neg |-> FALSE, hi |-> 0, lo |-> r.v * ms, ns |-> 0, s |-> Nanos(r.v * ms)]]
Texts(r, ms) == WR!Texts(Written(r, ms))
Line1(r, ms) == [k |-> r.k, job |-> r.job, ev |-> r.ev, st |-> r.st, v |-> [neg |-> FALSE, hi |-> 0, lo |-> r.v * ms, ns |-> 0],
                 g |-> IF r.g = 0 THEN [t |-> "small", s |-> "0"] ELSE [t |-> "milli", neg |-> r.g < 0, k |-> Abs(r.g) * 500]]
RECURSIVE Lines(_, _, _)
Lines(c, rs, ms) == IF rs = <<>> THEN <<>> ELSE SD!Lines([prefix |-> c.prefix, skiptop |-> c.skiptop, skipnested |-> c.skipnested, san |-> "plain"], Line1(rs[1], ms)) \o Lines(c, Tail(rs), ms)
Aggregated(rs) == Ops!ApplyAll(Ops!ZeroAgg, [i \in 1..Len(rs) |-> [k |-> rs[i].k, job |-> rs[i].job, ev |-> rs[i].ev, v |-> rs[i].v, g |-> GaugeText(rs[i].g), st |-> rs[i].st]])
Measured(c, rs) == LB!AccAll(c.prefix, [i \in 1..Len(rs) |-> [k |-> rs[i].k, job |-> rs[i].job, ev |-> rs[i].ev, st |-> rs[i].st, n |-> 1, v |-> IF rs[i].k = "gauge" THEN rs[i].g ELSE rs[i].v]])
Notified(rs) == SelectSeq(rs, LAMBDA r : r.k = "err" /\ r.due)
=============================================================================
