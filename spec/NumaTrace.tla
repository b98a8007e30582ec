------------------------------ MODULE NumaTrace -----------------------------
EXTENDS Numa, Json, IOUtils
VARIABLES tr, pos, st
Init0(h) == N0
Step(h, s, e) ==
  CASE e.e = "threads" -> SetN(s, e.n, e.code)
    [] e.e = "regb"  -> RegBegin(s, e.t, e.k, e.node)
    [] e.e = "reg"   -> RegEnd(s, e.t, e.k, e)
    [] e.e = "inb"   -> Call(s, e.t, e)
    [] e.e = "out"   -> Return(s, e.t, e)
    [] e.e = "comm"  -> Comm(s, e.t, e)
    [] e.e = "part"  -> Part(s, e)
    [] e.e = "cdel"  -> {[s EXCEPT !.comm = Without(@, e.c)]}
    [] e.e = "end"   -> IF DOMAIN s.p = {} /\ s.inreg = {} THEN {s} ELSE {}
    [] OTHER         -> {}
Hidden(h, s) == UNION {EnterStep(s, t) \cup LeaveStep(s, t) : t \in DOMAIN s.p}
Traces == ndJsonDeserialize(IOEnv.TRACES)
INSTANCE Replay
=============================================================================
