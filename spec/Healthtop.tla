----------------------------- MODULE Healthtop ------------------------------
(* healthtop (cmd/healthtop): polls a healthd once a second and shows, on a  *)
(* terminal, the answer that arrived last. Times are in ms since its start.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
VARIABLES data,    \* the rows last answered, in healthd's order
          have,    \* whether there has been an answer
          okAt, errAt, errTok,   \* latest answer and latest failure (-1: none)
          shown,   \* status on the screen, a failure since the last look apart
          nreq,    \* requests sent
          seen     \* requests answered
tvars == <<data, have, okAt, errAt, errTok, shown, nreq, seen>>
TopInit == data = <<>> /\ have = FALSE /\ okAt = -1 /\ errAt = -1 /\ errTok = "" /\ shown = "starting" /\ nreq = 0 /\ seen = {}
Period == 1000
MinRows == 3
Limit(h) == IF h - 2 < MinRows THEN MinRows ELSE h - 2

(* a duration is [hi: whole milliseconds, lo: the nanoseconds beyond]        *)
Nanos(n) ==
  IF n.hi > 2 \/ (n.hi = 2 /\ n.lo > 0) THEN [v |-> n.hi, u |-> "ms"]
  ELSE LET x == n.hi * 1000000 + n.lo IN IF x > 1000 THEN [v |-> x \div 1000, u |-> "us"] ELSE [v |-> x, u |-> "ns"]
IsSub(s, t) == \E i \in 0..(Len(t) - Len(s)) : SubSeq(t, i + 1, i + Len(s)) = s
Kept(rows, name) == SelectSeq(rows, LAMBDA r : IsSub(name, r.name))
Colours(c) == [k \in 1..6 |-> IF k <= 2 THEN (IF c[1] = c[2] THEN "green" ELSE "black") ELSE IF c[k] > 0 THEN "red" ELSE "black"]
JobRow(r, s) == s.name = r.name /\ s.c = r.c /\ s.col = Colours(r.c) /\ \A k \in 1..5 : s.ts[k] = Nanos(r.ts[k])
Fine(r) == r.code = 200 /\ r.err = ""
HostText(r) == IF Fine(r) THEN "Success" ELSE IF r.at = -1 THEN "Unknown" ELSE "Failure: " \o r.err
HostRow(r, s) == s.hp = r.hp /\ s.st = HostText(r) /\ s.col = (IF Fine(r) THEN "green" ELSE "red") /\ s.at = r.at /\ s.ns = Nanos(r.ns)
RowsOK(view, name, rows) ==
  LET want == IF view = "jobs" THEN Kept(data, name) ELSE data IN
  /\ Len(rows) = Len(want)
  /\ \A i \in 1..Len(want) : IF view = "jobs" THEN JobRow(want[i], rows[i]) ELSE HostRow(want[i], rows[i])

(* the request: sort as chosen; as many jobs as fit, all when a name is searched *)
ReqOK(c, e) ==
  /\ e.method = "GET" /\ e.host = c.source /\ e.more = 0
  /\ e.path = "/healthd/" \o c.view
  /\ IF c.view = "hosts" THEN e.sort = "-" /\ e.limit = -1
     ELSE e.sort = c.sort /\ e.limit = (IF c.name = <<>> THEN Limit(e.h) ELSE -1)
Request(e) == nreq' = nreq + 1 /\ UNCHANGED <<data, have, okAt, errAt, errTok, shown, seen>>
Answer(e) ==
  /\ e.n \in 1..nreq /\ e.n \notin seen /\ seen' = seen \cup {e.n}
  /\ IF e.ok THEN data' = e.rows /\ have' = TRUE /\ okAt' = e.t /\ shown' = "success" /\ UNCHANGED <<errAt, errTok>>
     ELSE errAt' = e.t /\ errTok' = e.tok /\ UNCHANGED <<data, have, okAt, shown>>
  /\ UNCHANGED nreq
Latest == IF okAt = -1 /\ errAt = -1 THEN "starting" ELSE IF errAt > okAt THEN "error" ELSE "success"
(* the start of the second that t lies in                                    *)
Tick(t) == (t \div Period) * Period
(* a failure may stay unseen until the next full second                      *)
Statuses(t) == IF Latest = "error" /\ errAt >= Tick(t) THEN {shown, "error"} ELSE {Latest}
=============================================================================
