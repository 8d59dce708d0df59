------------------------------- MODULE Writer -------------------------------
(* The writer sinks (writer_sink.go, json_writer_sink.go): one write per     *)
(* recording, with a fixed content. Strings have one character per byte.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Ch(s, i) == SubSeq(s, i, i)
Pad(n, w) == LET s == ToString(n) IN SubSeq("0000000000", 1, w - Len(s)) \o s
RECURSIVE TrimZeros(_)
TrimZeros(s) == IF s = "" \/ Ch(s, Len(s)) # "0" THEN s ELSE TrimZeros(SubSeq(s, 1, Len(s) - 1))
(* t = [y, mo, d, h, mi, s, ns], UTC; RFC 3339 with as many decimals as needed *)
Stamp(t) == Pad(t.y, 4) \o "-" \o Pad(t.mo, 2) \o "-" \o Pad(t.d, 2) \o "T" \o Pad(t.h, 2) \o ":" \o Pad(t.mi, 2) \o ":" \o Pad(t.s, 2)
            \o (IF t.ns = 0 THEN "" ELSE "." \o TrimZeros(Pad(t.ns, 9))) \o "Z"
(* kvs: a sequence of [k, v, b], b the bytes of the key; order irrelevant    *)
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
              ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
Sorted(kvs) == SortSeq(kvs, LAMBDA x, y : Less(x.b, y.b))
RECURSIVE JoinKvs(_)
JoinKvs(kvs) == IF kvs = <<>> THEN "" ELSE kvs[1].k \o ":" \o kvs[1].v \o (IF Len(kvs) > 1 THEN " " ELSE "") \o JoinKvs(Tail(kvs))
(* no key/values: nothing, or an empty list                                  *)
KvTexts(kvs) == IF kvs = <<>> THEN {"", " kvs:[]"} ELSE {" kvs:[" \o JoinKvs(Sorted(kvs)) \o "]"}
(* a duration v = [neg, hi, lo, ns, s]: (hi*10^6+lo) ms + ns; s all of it in ns *)
CONSTANT MicroSign      \* the two bytes of the micro sign, as characters
Dur(v) == IF ~v.neg /\ (v.hi > 0 \/ v.lo > 2 \/ (v.lo = 2 /\ v.ns > 0))
          THEN (IF v.hi > 0 THEN ToString(v.hi) \o Pad(v.lo, 6) ELSE ToString(v.lo)) \o " ms"
          ELSE IF ~v.neg /\ (v.lo > 0 \/ v.ns > 2000)
          THEN ToString(v.lo * 1000 + v.ns \div 1000) \o " " \o MicroSign
          ELSE v.s \o " ns"
Mid(e) == CASE e.k = "event" -> " event:" \o e.ev
            [] e.k = "err" -> " event:" \o e.ev \o " err:" \o e.err
            [] e.k = "timing" -> " event:" \o e.ev \o " time:" \o Dur(e.v)
            [] e.k = "gauge" -> " event:" \o e.ev \o " gauge:" \o e.g
            [] e.k = "complete" -> " status:" \o e.st \o " time:" \o Dur(e.v)
Texts(e) == {"[" \o Stamp(e.t) \o "]: job:" \o e.job \o Mid(e) \o kv \o "\n" : kv \in KvTexts(e.kvs)}

(* the JSON object as decoded: w.f maps field names to text                  *)
KvSet(kvs) == {<<kvs[i].k, kvs[i].v>> : i \in 1..Len(kvs)}
Fields(e) == {"Job", "Timestamp"} \cup
  (CASE e.k = "event" -> {"Event"} [] e.k = "err" -> {"Event", "Err"} [] e.k = "timing" -> {"Event", "Nanoseconds"}
     [] e.k = "gauge" -> {"Event", "Value"} [] e.k = "complete" -> {"Status", "Nanoseconds"})
Field(e, f) == CASE f = "Job" -> e.job [] f = "Timestamp" -> Stamp(e.t) [] f = "Event" -> e.ev [] f = "Err" -> e.err
                 [] f = "Nanoseconds" -> e.v.s [] f = "Value" -> e.g [] f = "Status" -> e.st
JsonIs(e, w) == /\ w.ok
                /\ \A f \in Fields(e) : f \in DOMAIN w.f /\ w.f[f] = Field(e, f)
                /\ Len(w.kvs) = Len(e.kvs) /\ {<<w.kvs[i][1], w.kvs[i][2]>> : i \in 1..Len(w.kvs)} = KvSet(e.kvs)
WriteIs(e, w, json) == IF json THEN JsonIs(e, w) ELSE w.raw \in Texts(e)
(* each recording of es has exactly one write in ws, and there are no others *)
OneEach(es, ws, json) ==
  /\ Len(es) = Len(ws)
  /\ \A i \in 1..Len(es) : Cardinality({j \in 1..Len(ws) : WriteIs(es[i], ws[j], json)}) = 1
  /\ \A j \in 1..Len(ws) : Cardinality({i \in 1..Len(es) : WriteIs(es[i], ws[j], json)}) = 1
=============================================================================
