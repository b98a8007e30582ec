------------------------------ MODULE SyncTrace -----------------------------
EXTENDS Sync, Json, IOUtils
VARIABLES tr, pos, st
Init0(h) == [o |-> [k \in 0..7 |-> Obj0], p |-> << >>, once |-> [k \in 0..7 |-> 0], oc |-> {}]
Step(h, s, e) ==
  CASE e.e = "inb"   -> Call(s, e.t, e)
    [] e.e = "ent"   -> IF e.w = Cardinality(s.o[e.k].in) THEN EnterStep(s, e.t) ELSE {}
    [] e.e = "left"  -> LeaveStep(s, e.t)
    [] e.e = "out"   -> Return(s, e.t, e)
    [] e.e = "onceb" -> OnceBegin(s, e.t, e.k)
    [] e.e = "execb" -> ExecBegin(s, e.k)
    [] e.e = "exece" -> ExecEnd(s, e.k)
    [] e.e = "once"  -> OnceEnd(s, e.t, e.k, e.x, e.y)
    [] e.e = "end"   -> IF DOMAIN s.p = {} /\ s.oc = {} THEN {s} ELSE {}
    [] OTHER         -> {}
\* calls whose steps are not observed one by one
Hidden(h, s) == UNION {IF s.p[t].x = 1 THEN {} ELSE EnterStep(s, t) \cup LeaveStep(s, t) : t \in DOMAIN s.p}
Traces == ndJsonDeserialize(IOEnv.TRACES)
INSTANCE Replay
=============================================================================
