------------------------------- MODULE Statsd -------------------------------
(* The StatsD sink (statsd_sink.go): which lines a recording yields, and how *)
(* lines travel in datagrams. Strings are sequences of one-byte characters.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Ch(s, i) == SubSeq(s, i, i)
OKChars == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z",
            "a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
            "0","1","2","3","4","5","6","7","8","9","_","."}
RECURSIVE SanFrom(_, _)
SanFrom(s, i) == IF i > Len(s) THEN "" ELSE (IF Ch(s, i) \in OKChars THEN Ch(s, i) ELSE "$") \o SanFrom(s, i + 1)
(* c.san: "default"; "plain" (default, but all names are clean already);      *)
(* "bracket": a user-supplied sanitizer that only adds brackets.             *)
San(c, s) == CASE c.san = "default" -> SanFrom(s, 1)
               [] c.san = "plain" -> s
               [] c.san = "bracket" -> "<" \o s \o ">"
Key(c, parts) ==
  LET ne == SelectSeq(parts, LAMBDA p : p # "")
  IN FoldLeft(LAMBDA acc, p : IF acc = "" THEN San(c, p) ELSE acc \o "." \o San(c, p), "", ne)

Pad2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Pad6(n) == LET s == ToString(n) IN SubSeq("000000", 1, 6 - Len(s)) \o s
(* a number of hundredths as a decimal; a zero may keep the sign             *)
Dec2(neg, h) == LET s == ToString(h \div 100) \o "." \o Pad2(h % 100)
                IN IF ~neg THEN {s} ELSE IF h = 0 THEN {s, "-" \o s} ELSE {"-" \o s}
(* rounding to the nearest hundredth; exact ties may go either way           *)
Round(x, unit) == LET q == x \div unit  r == x % unit
                  IN IF 2 * r < unit THEN {q} ELSE IF 2 * r > unit THEN {q + 1} ELSE {q, q + 1}
(* A duration is [neg, hi, lo, ns]: (hi*10^6 + lo) milliseconds + ns.        *)
DurVal(v) ==
  IF ~v.neg /\ (v.hi > 0 \/ v.lo >= 10)
  THEN {IF v.hi > 0 THEN ToString(v.hi) \o Pad6(v.lo) ELSE ToString(v.lo)}
  ELSE UNION {Dec2(v.neg, h) : h \in Round(v.lo * 1000000 + v.ns, 10000)}
(* A gauge is [t |-> "milli", neg, k]: k thousandths, at least 100 of them;  *)
(* [t |-> "int", s]: a whole number; [t |-> "small", s]: magnitude below 0.1 *)
(* whose shortest decimal is s.                                              *)
GaugeVal(g) == CASE g.t = "milli" -> UNION {Dec2(g.neg, h) : h \in Round(g.k, 10)}
                 [] g.t = "int" -> {g.s \o ".00"}
                 [] g.t = "small" -> {g.s}
(* Lines: a sequence of sets of acceptable lines (without newline).          *)
Line(key, vals, unit) == {key \o ":" \o v \o "|" \o unit : v \in vals}
Two(c, e, suffix, vals, unit) ==
  (IF c.skiptop THEN <<>> ELSE <<Line(Key(c, <<c.prefix, e.ev, suffix>>), vals, unit)>>)
  \o (IF c.skipnested THEN <<>> ELSE <<Line(Key(c, <<c.prefix, e.job, e.ev, suffix>>), vals, unit)>>)
Lines(c, e) ==
  CASE e.k = "event" -> Two(c, e, "", {"1"}, "c")
    [] e.k = "err" -> Two(c, e, "error", {"1"}, "c")
    [] e.k = "timing" -> Two(c, e, "", DurVal(e.v), "ms")
    [] e.k = "gauge" -> Two(c, e, "", GaugeVal(e.g), "g")
    [] e.k = "complete" -> <<Line(Key(c, <<c.prefix, e.job, e.st>>), DurVal(e.v), "ms")>>
MaxBytes == 1440
Fits(alts) == \A x \in alts : Len(x) + 1 <= MaxBytes
SentLines(c, e) == SelectSeq(Lines(c, e), Fits)
FlushMs == 100

(* ---- one recorder, as observed at rest after each operation ------------ *)
VARIABLES now, rest     \* rest: lines recorded but not yet seen, with their time
svars == <<now, rest>>
SInit == now = 0 /\ rest = <<>>
(* datagrams ds = <<[n |-> bytes, ls |-> lines, last one empty]>>            *)
WholeLines(ds) == \A i \in 1..Len(ds) : ds[i].n <= MaxBytes /\ Len(ds[i].ls) > 1 /\ ds[i].ls[Len(ds[i].ls)] = ""
RECURSIVE Flat(_)
Flat(ds) == IF ds = <<>> THEN <<>> ELSE SubSeq(ds[1].ls, 1, Len(ds[1].ls) - 1) \o Flat(Tail(ds))
Seen(rs, ds) ==   \* rs is what may be seen now, in order
  LET ls == Flat(ds) IN
  /\ WholeLines(ds)
  /\ Len(ls) <= Len(rs)
  /\ \A i \in 1..Len(ls) : ls[i] \in rs[i].alts
  /\ rest' = SubSeq(rs, Len(ls) + 1, Len(rs))
InTime == \A i \in 1..Len(rest') : now' - rest'[i].at < FlushMs
Stamp(c, e) == [i \in 1..Len(SentLines(c, e)) |-> [alts |-> SentLines(c, e)[i], at |-> now]]
EmitSeen(c, o) == now' = now /\ Seen(rest \o Stamp(c, o), o.got) /\ InTime
DrainSeen(c, o) == now' = now /\ o.ret /\ Seen(rest, o.got) /\ rest' = <<>>
(* time passes, and more is recorded at its end, when a flush may be due too *)
RECURSIVE StampAll(_, _, _)
StampAll(c, es, t) == IF es = <<>> THEN <<>>
  ELSE [i \in 1..Len(SentLines(c, es[1])) |-> [alts |-> SentLines(c, es[1])[i], at |-> t]] \o StampAll(c, Tail(es), t)
BusySeen(c, o) == now' = now + o.dt /\ Seen(rest \o StampAll(c, o.es, now'), o.got) /\ InTime
AdvSeen(c, o) == now' = now + o.dt /\ Seen(rest, o.got) /\ InTime
=============================================================================
