------------------------------- MODULE Stack --------------------------------
(* Stack capture (stack): the call stack of one goroutine as a machine of    *)
(* enter / at / leave, and captures of it.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
VARIABLES calls,     \* the active calls of the goroutine, outermost first
          kept       \* capture number |-> the frames it must list
svars == <<calls, kept>>
F(p, n) == [pkg |-> p, name |-> n, file |-> "", line |-> 0]
SInit == calls = <<>> /\ kept = <<>>
Enter(p, n) == calls' = Append(calls, F(p, n)) /\ UNCHANGED kept
Leave == Len(calls) > 0 /\ calls' = SubSeq(calls, 1, Len(calls) - 1) /\ UNCHANGED kept
At(f, l) == calls' = [calls EXCEPT ![Len(calls)] = [@ EXCEPT !.file = f, !.line = l]] /\ UNCHANGED kept
Bump(n) == calls' = [calls EXCEPT ![Len(calls)] = [@ EXCEPT !.line = @ + n]] /\ UNCHANGED kept
(* what a capture by the innermost call lists; base are the goroutine's      *)
(* frames outside the machine, innermost first                               *)
Listed(base, skip, max) ==
  LET all == Reverse(calls) \o base
      n == IF Len(all) - skip < max THEN Len(all) - skip ELSE max
  IN IF n <= 0 THEN <<>> ELSE SubSeq(all, skip + 1, skip + n)
Capture(base, t, skip, max) == t \notin DOMAIN kept /\ kept' = (t :> Listed(base, skip, max)) @@ kept /\ UNCHANGED calls
Line(f) == f.file \o ":" \o ToString(f.line) \o " " \o f.name
Text(fs) == [i \in 1..Len(fs) |-> Line(fs[i])]
=============================================================================
