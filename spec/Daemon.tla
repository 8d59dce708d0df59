------------------------------- MODULE Daemon -------------------------------
(* The healthd daemon (cmd/healthd): reads its configuration, monitors the   *)
(* hosts it was given and itself, serves the API and logs to stdout.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Running(given) == given # {}
Monitored(given, self) == given \cup {self}
(* hosts that answer, itself included, are reported well; all others not     *)
Well(up, self) == up \cup {self}
=============================================================================
