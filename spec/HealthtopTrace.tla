--------------------------- MODULE HealthtopTrace ---------------------------
EXTENDS Healthtop, Json, IOUtils
CONSTANT FOCUS
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
C == Traces[tid].cfg
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ TopInit
Evt == Traces[tid].ev[l]
(* whole second the terminal's clock shows at time t                         *)
Sec(t) == (t + C.frac) \div 1000
ScreenOK(e) ==
  /\ e.good
  /\ e.clock >= Sec(Tick(e.t)) /\ e.clock <= Sec(e.t)
  /\ e.st \in Statuses(e.t)
  /\ e.st = "error" => errAt # -1 /\ (Latest = "error" /\ errAt < Tick(e.t) => e.errat = Sec(errAt) /\ (errTok = "" \/ e.tokin))
  /\ e.data = have
  /\ have => RowsOK(C.view, C.name, e.rows)
  /\ nreq = (e.t \div Period) + 1
(* nothing need be drawn in the first second as long as nothing is known     *)
Blank(e) == e.blank /\ ~have /\ e.t < Period
TNext ==
  \/ /\ l <= Len(Traces[tid].ev)
     /\ CASE Evt.op = "req" -> ReqOK(C, Evt) /\ Evt.n = nreq + 1 /\ Evt.t = nreq * Period /\ Request(Evt)
          [] Evt.op = "ans" -> Answer(Evt)
          [] Evt.op = "screen" -> (IF Blank(Evt) THEN shown' = shown /\ nreq = 1 ELSE ScreenOK(Evt) /\ shown' = Evt.st) /\ UNCHANGED <<data, have, okAt, errAt, errTok, nreq, seen>>
          [] OTHER -> FALSE
     /\ l' = l + 1 /\ tid' = tid
  \/ l > Len(Traces[tid].ev) /\ UNCHANGED <<tvars, tid, l>>
=============================================================================
