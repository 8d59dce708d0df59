------------------------------ MODULE Bugsnag -------------------------------
(* The Bugsnag sink (sinks/bugsnag): which recordings are notified, with     *)
(* what content, in which order, over an endpoint that may be slow or fail.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES em,      \* errors (wrappers) already reported
          mut,     \* muted errors
          want     \* notifications due, in order
bvars == <<em, mut, want>>
BInit == em = {} /\ mut = {} /\ want = <<>>
(* o = [x: error, how: "fresh" | "again" | "mute", n: notification content]  *)
Due(o) == o.how = "fresh" \/ (o.how = "again" /\ o.x \notin em \cup mut)
Record(o) == /\ want' = IF Due(o) THEN Append(want, o.n) ELSE want
             /\ em' = IF o.how = "mute" THEN em ELSE IF o.x \in mut THEN em ELSE em \cup {o.x}
             /\ mut' = IF o.how = "mute" THEN mut \cup {o.x} ELSE mut
=============================================================================
