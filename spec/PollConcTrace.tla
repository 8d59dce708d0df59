--------------------------- MODULE PollConcTrace ----------------------------
EXTENDS PollConc, Json, IOUtils
CONSTANT FOCUS
VARIABLES tid, l, marks, held
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ marks = [p \in Prods |-> <<>>] /\ held = <<>>
Evt == Traces[tid].ev[l]
Ok(c) == \E K \in Cuts(c) : Closed(K, marks)
(* everything begun so far: the last mark is not enough, so the driver's     *)
(* final poll carries the totals                                             *)
TNext ==
  \/ /\ l <= Len(Traces[tid].ev)
     /\ CASE Evt.op = "mark" -> marks' = [marks EXCEPT ![Evt.p] = Append(@, [k |-> Evt.k, v |-> Evt.v])] /\ UNCHANGED held
          [] Evt.op = "poll" -> Ok(Evt.cut) /\ held' = (Evt.i :> Evt.cut) @@ held /\ UNCHANGED marks
          [] Evt.op = "final" -> /\ \E K \in Cuts(Evt.cut) : \A p \in Prods : K[p] = Evt.begun[p]
                                 /\ held' = (Evt.i :> Evt.cut) @@ held /\ UNCHANGED marks
          [] Evt.op = "again" -> Evt.cut = held[Evt.i] /\ UNCHANGED <<marks, held>>
          [] OTHER -> FALSE
     /\ l' = l + 1 /\ tid' = tid
  \/ l > Len(Traces[tid].ev) /\ UNCHANGED <<tid, l, marks, held>>
=============================================================================
