----------------------------- MODULE PollTrace -----------------------------
(* Accepts a recorded execution of the real polling sink iff every answer   *)
(* it gave is one Poll allows. FOCUS selects the property being decided.    *)
EXTENDS Poll, Json, IOUtils
CONSTANT FOCUS
VARIABLES tid, l

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
tvars == <<vars, tid, l>>

TInit == /\ tid \in 1..Len(Traces) /\ l = 1
         /\ cfg = Traces[tid].cfg /\ Init0
Evt == Traces[tid].ev[l]

MyAnswerOK(obs) ==
  CASE FOCUS = "C05" -> ContentOK(obs) /\ SerialOK(obs) /\ CurrentShown(obs)
    [] FOCUS = "C06" -> WindowOK(obs) /\ ContentOK(obs)
    [] FOCUS = "C07" -> TRUE
    [] FOCUS = "C09" -> TRUE

(* The endpoint answered with what a direct poll at the same instant gave.  *)
HttpOK(e) ==
  IF e.path = "/health"
  THEN /\ e.code = 200 /\ e.wellformed
       /\ e.id = cfg.id /\ e.dur = cfg.dur
       /\ e.obs = e.direct
       /\ ContentOK(e.obs) /\ CurrentShown(e.obs)
  ELSE e.code = 404 /\ e.wellformed /\ e.iserror /\ ~ e.hasmetrics

TStep ==
  CASE Evt.op = "emit"  -> Record(Evt)
    [] Evt.op = "adv"   -> Advance(Evt)
    [] Evt.op = "snap"  -> MyAnswerOK(Evt.obs) /\ Poll(Evt.obs)
    [] Evt.op = "again" -> (FOCUS = "C07" => Evt.obs = snaps[Evt.i]) /\ UNCHANGED vars
    [] Evt.op = "http"  -> (FOCUS = "C09" => HttpOK(Evt)) /\ UNCHANGED vars
    [] OTHER            -> FALSE          \* hang, crash: never allowed
TNext ==
  \/ l <= Len(Traces[tid].ev) /\ TStep /\ l' = l + 1 /\ tid' = tid
  \/ l > Len(Traces[tid].ev) /\ UNCHANGED tvars
=============================================================================
