---------------------------- MODULE MpiMutexTrace ---------------------------
EXTENDS MpiMutex, Json, IOUtils
VARIABLES tr, pos, st
Init0(h) == M0
Step(h, s, e) ==
  LET w == <<e.r, e.t>> IN
  CASE e.e = "ask"  -> Ask(s, w, e.p)
    [] e.e = "in"   -> Enter(s, w, e.p)
    [] e.e = "rel"  -> Release(s, w, e.p)
    [] e.e = "reld" -> Released(s, w, e.p)
    [] e.e = "tags" -> Tags(s, e.r, e.c, e.n, e.v)
    [] OTHER        -> {}
Hidden(h, s) == {}
Traces == ndJsonDeserialize(IOEnv.TRACES)
\* the last event
Step1(h, s, e) == IF e.e = "end" THEN (IF DOMAIN s.hold = {} /\ DOMAIN s.wait = {} /\ s.leaving = {} THEN {s} ELSE {}) ELSE Step(h, s, e)
INSTANCE Replay WITH Step <- Step1
=============================================================================
