------------------------------ MODULE Runtime -------------------------------
(* The runtime metrics reporter (runtime_metrics).                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Metrics(s) == CASE s = "memory" -> {"alloc", "heap_objects"}
                [] s = "gc" -> {"pause_total_ns", "num_gc", "next_gc", "gc_cpu_fraction"}
                [] s = "gcq" -> {"gc_pause_quantile_50", "gc_pause_quantile_max"}
                [] s = "goroutines" -> {"num_goroutines"}
                [] s = "cgo" -> {"num_cgo_call"}
                [] s = "fds" -> {"num_fds_used"}
Selected(sel) == UNION {Metrics(s) : s \in sel}
VARIABLES mode,      \* "new", "running" or "stopped"
          t0,        \* when it was started (last: one that was stopped can be started again)
          now
rvars == <<mode, t0, now>>
RInit == mode = "new" /\ t0 = 0 /\ now = 0
(* times of the periodic reports in (from, to]                               *)
Ticks(from, to, iv) == IF mode = "running" THEN {t \in (from + 1)..to : (t - t0) % iv = 0} ELSE {}
(* what has to be reported: <<metric, time>>                                 *)
Due(sel, times) == Selected(sel) \X times
=============================================================================
