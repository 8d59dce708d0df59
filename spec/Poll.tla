-------------------------------- MODULE Poll --------------------------------
(* The JSON polling sink (aggregator.go, json_polling_sink.go) at the level  *)
(* of its public calls, over virtual time.                                   *)
(*                                                                           *)
(* Two layers are kept side by side. `cells` is the abstract truth: for each *)
(* interval with at least one recording, what was recorded in it. `win` is   *)
(* the implementation's structure: the bounded window of intervals that is   *)
(* rotated whenever the current interval changes (on a recording, a poll or  *)
(* the one-second ticker). The invariants state that polling `win` always    *)
(* gives an answer SnapOK allows; trace validation applies the same SnapOK   *)
(* to what the real sink answered.                                           *)
EXTENDS AggOps

CONSTANT IMPL   \* whether the implementation-shaped layer `win` is maintained

VARIABLES cfg,    \* [d: interval length, r: retained intervals, off: grid offset,
                  \*  slide: the one-second ticker visits every interval]
          now,    \* current time
          cells,  \* start of interval |-> [a: aggregation, n: number of recordings]
          win,    \* sequence of [start, n, a], the implementation's window
          snaps,  \* answers of polls so far
          ser     \* start of interval |-> <<recordings, serial>> of the last poll that showed it
vars == <<cfg, now, cells, win, snaps, ser>>

Cell(t) == cfg.off + ((t - cfg.off) \div cfg.d) * cfg.d

(* Implementation: find or create the current interval, dropping the oldest. *)
Touch(w, t) ==
  LET s == Cell(t) IN
  IF w # <<>> /\ w[Len(w)].start = s THEN w
  ELSE LET w2 == Append(w, [start |-> s, n |-> 0, a |-> ZeroAgg])
       IN IF Len(w2) > cfg.r THEN SubSeq(w2, Len(w2) - cfg.r + 1, Len(w2)) ELSE w2

Bump(w, o) == [w EXCEPT ![Len(w)] = [@ EXCEPT !.n = @ + 1, !.a = Apply(@, o)]]

Init0 == /\ now = 0 /\ cells = EmptyMap /\ win = <<>> /\ snaps = <<>> /\ ser = EmptyMap

(* --- actions ------------------------------------------------------------ *)
RECURSIVE TouchRange(_, _, _)
TouchRange(w, from, to) == IF from > to THEN w ELSE TouchRange(Touch(w, from), from + cfg.d, to)
Advance(o) ==                       \* time passes; the ticker slides the window
  /\ now' = now + o.n
  /\ IF ~ IMPL \/ ~ cfg.slide \/ Cell(now') = Cell(now) THEN win' = win
     ELSE \* every interval contains a tick: all that were passed have been
          \* visited, the one just entered may or may not have been yet
          \E to \in {Cell(now') - cfg.d, Cell(now')} : win' = TouchRange(win, Cell(now), to)
  /\ UNCHANGED <<cfg, cells, snaps, ser>>

Record(o) ==
  LET s == Cell(now) IN
  /\ cells' = Put(cells, s, LET c == Get(cells, s, [a |-> ZeroAgg, n |-> 0])
                            IN [a |-> Apply(c.a, o), n |-> c.n + 1])
  /\ win' = IF IMPL THEN Bump(Touch(win, now), o) ELSE win
  /\ UNCHANGED <<cfg, now, snaps, ser>>

NonEmpty(s) == s \in DOMAIN cells

(* --- what a poll may answer --------------------------------------------- *)
Oldest == Cell(now) - (cfg.r - 1) * cfg.d     \* start of the oldest retained interval
WindowOK(obs) ==
  /\ Len(obs) <= cfg.r
  /\ \A i \in 1..Len(obs) : (obs[i].start - cfg.off) % cfg.d = 0 /\ obs[i].start <= now
  /\ \A i \in 1..Len(obs)-1 : obs[i].start < obs[i+1].start
  /\ \A s \in DOMAIN cells : s >= Oldest => \E i \in 1..Len(obs) : obs[i].start = s
  /\ cfg.slide => \A i \in 1..Len(obs) : obs[i].start >= Oldest
ContentOK(obs) ==
  \A i \in 1..Len(obs) :
    Content(obs[i]) = IF NonEmpty(obs[i].start) THEN cells[obs[i].start].a ELSE ZeroAgg
Count(s) == IF NonEmpty(s) THEN cells[s].n ELSE 0
SerialOK(obs) ==
  \A i \in 1..Len(obs) :
    LET s == obs[i].start
        last == Get(ser, s, <<-1, -1>>)
    IN /\ obs[i].serial >= 0
       /\ (Count(s) = last[1]) => (obs[i].serial = last[2])
       /\ (Count(s) > last[1]) => (obs[i].serial > last[2])
CurrentShown(obs) == NonEmpty(Cell(now)) => \E i \in 1..Len(obs) : obs[i].start = Cell(now)
SnapOK(obs) == WindowOK(obs) /\ ContentOK(obs) /\ SerialOK(obs)

SerAfter(obs) ==
  LET S == {obs[i].start : i \in 1..Len(obs)}
  IN [s \in (DOMAIN ser) \cup S |->
        IF s \in S THEN <<Count(s), (CHOOSE x \in {obs[i] : i \in 1..Len(obs)} : x.start = s).serial>>
        ELSE ser[s]]

Poll(obs) ==                        \* the caller gets obs
  /\ snaps' = Append(snaps, obs)
  /\ win' = IF IMPL THEN Touch(win, now) ELSE win
  /\ ser' = SerAfter(obs)
  /\ UNCHANGED <<cfg, now, cells>>

(* Answer of the implementation-shaped layer.                               *)
View(w) == [i \in 1..Len(w) |->
  [start |-> w[i].start, serial |-> w[i].n, ev |-> w[i].a.ev, er |-> w[i].a.er,
   ga |-> w[i].a.ga, ti |-> w[i].a.ti, jobs |-> w[i].a.jobs]]

(* --- bounded model ------------------------------------------------------ *)
CONSTANTS MaxT, MaxN, MaxSnap, Jobs, Evs, Vs, Gs, Sts, Advs

Emits(k) ==
  CASE k \in {"event", "err"} -> [op : {"emit"}, k : {k}, job : Jobs, ev : Evs, v : {0}, g : {""}, st : {""}]
    [] k = "timing"   -> [op : {"emit"}, k : {k}, job : Jobs, ev : Evs, v : Vs, g : {""}, st : {""}]
    [] k = "gauge"    -> [op : {"emit"}, k : {k}, job : Jobs, ev : Evs, v : {0}, g : Gs, st : {""}]
    [] k = "complete" -> [op : {"emit"}, k : {k}, job : Jobs, ev : {""}, v : Vs, g : {""}, st : Sts]
OpKinds == Kinds \cup {"adv", "snap", "again", "http"}
OpsFor(k) ==
  CASE k \in Kinds -> Emits(k)
    [] k = "adv"   -> [op : {"adv"}, n : Advs]
    [] k = "snap"  -> IF Len(snaps) < MaxSnap THEN [op : {"snap"}] ELSE {}
    [] k = "again" -> [op : {"again"}, i : 1..Len(snaps)]
    [] k = "http"  -> [op : {"http"}, path : {"/health", "other"}]

Step(o) ==
  CASE o.op = "emit"  -> Record(o)
    [] o.op = "adv"   -> Advance(o)
    [] o.op = "snap"  -> Poll(View(Touch(win, now)))
    [] o.op = "again" -> UNCHANGED vars
    [] o.op = "http"  -> UNCHANGED vars

CONSTANTS D, R, Slide
Init == cfg = [d |-> D, r |-> R, slide |-> Slide, off |-> 0] /\ Init0
Next == \E k \in OpKinds : \E o \in OpsFor(k) : Step(o)
Spec == Init /\ [][Next]_vars

Total == SumOver([s \in DOMAIN cells |-> cells[s].n], DOMAIN cells)
Bound == now <= MaxT /\ Total <= MaxN

(* --- properties --------------------------------------------------------- *)
Answer == View(Touch(win, now))
InvWindow   == WindowOK(Answer)                        \* C06
InvContent  == ContentOK(Answer)                       \* C05, C06
InvSerial   == SerialOK(Answer)                        \* C05
InvBalanced == \A s \in DOMAIN cells : Balanced(cells[s].a) /\ Sane(cells[s].a)   \* C05
InvCount    == \A s \in DOMAIN cells : cells[s].n > 0
PastImmutable ==                                       \* C06: passed intervals never change
  [][\A s \in DOMAIN cells : s < Cell(now) => cells'[s] = cells[s]]_vars
SnapsImmutable ==                                      \* C07: answers never change
  [][\A i \in 1..Len(snaps) : snaps'[i] = snaps[i]]_vars
=============================================================================
