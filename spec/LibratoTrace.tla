---------------------------- MODULE LibratoTrace ----------------------------
EXTENDS Librato, Json, IOUtils
CONSTANT FOCUS
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
C == Traces[tid].cfg
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ LInit
Evt == Traces[tid].ev[l]
PostSet(p) == {<<p.ms[i].key, p.ms[i].t, p.ms[i].c, p.ms[i].s, p.ms[i].q, p.ms[i].mn, p.ms[i].mx>> : i \in 1..Len(p.ms)}
AccSet(acc) == {<<k, acc[k].t, acc[k].c, acc[k].s, acc[k].q, acc[k].mn, acc[k].mx>> : k \in DOMAIN acc}
Good(p) == p.ok /\ p.age = 0 /\ p.period = Period /\ p.source = C.host /\ Len(p.ms) > 0 /\ Cardinality(PostSet(p)) = Len(p.ms)
(* how often the multiple recording rs[j] is in p (its name is its own)      *)
InPost(p, r) == LET k == Keys(C.prefix, r)[1] IN IF \E i \in 1..Len(p.ms) : p.ms[i].key = k THEN p.ms[CHOOSE i \in 1..Len(p.ms) : p.ms[i].key = k].c ELSE 0
(* Consume posts one after the other: the set of possible rests.             *)
RestsAfter(rs, p) ==
  IF ~Good(p) THEN {}
  ELSE {c.out : c \in {c \in Cuts(rs, [j \in 1..Len(rs) |-> IF rs[j].n > 1 THEN InPost(p, rs[j]) ELSE 0]) : AccSet(AccAll(C.prefix, c.in)) = PostSet(p)}}
RECURSIVE Rests(_, _)
Rests(S, ps) == IF ps = <<>> THEN S ELSE Rests(UNION {RestsAfter(rs, ps[1]) : rs \in S}, Tail(ps))
(* number of flushes in (now, now+dt]                                        *)
Ticks(dt) == (now + dt) \div Period - now \div Period
TNext ==
  \/ /\ l <= Len(Traces[tid].ev)
     /\ CASE Evt.op = "rec" -> /\ now' = now
                               /\ IF C.slow THEN pend' \in Rests({Append(pend, Evt.r)}, Evt.posts)
                                  ELSE Evt.posts = <<>> /\ pend' = Append(pend, Evt.r)
          [] Evt.op = "adv" /\ ~C.slow ->
               /\ now' = now + Evt.dt
               /\ IF Ticks(Evt.dt) = 0 \/ pend = <<>> THEN Evt.posts = <<>> /\ pend' = pend
                  ELSE Len(Evt.posts) = 1 /\ Good(Evt.posts[1]) /\ AccSet(AccAll(C.prefix, pend)) = PostSet(Evt.posts[1]) /\ pend' = <<>>
          [] Evt.op = "settle" -> /\ now' = now /\ pend' = <<>> /\ Evt.blocked = 0
                                  /\ <<>> \in Rests({pend}, Evt.posts)
                                  /\ Evt.unreleased = 0
          [] OTHER -> FALSE
     /\ l' = l + 1 /\ tid' = tid
  \/ l > Len(Traces[tid].ev) /\ UNCHANGED <<lvars, tid, l>>
=============================================================================
