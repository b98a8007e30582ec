----------------------------- MODULE CacheTrace -----------------------------
EXTENDS Cache, Json, IOUtils
VARIABLES tr, pos, st
Init0(h) == S0(h.n, h.spread)
Step(h, s, e) ==
  CASE e.e = "find"  -> Find(s, e.b, e.a, e.hit, e.i)
    [] e.e = "ins"   -> Ins(s, e.b, e.i, e.old)
    [] e.e = "getb"  -> Begin(s, e.t, "get", e.b)
    [] e.e = "tryb"  -> Begin(s, e.t, "try", e.b)
    [] e.e = "got"   -> Got(s, e.t, e.b, e.old, e.i, e.d)
    [] e.e = "tried" -> Tried(s, e.t, e.b, e.ok, e.i, e.d)
    [] e.e = "mem"   -> Mem(s, e.t, e.v)
    [] e.e = "fill"  -> Fill(s, e.t, e.v)
    [] e.e = "rel"   -> Rel(s, e.t, e.i)
    [] e.e = "reld"  -> Reld(s, e.t)
    [] e.e = "end"   -> IF DOMAIN s.pend = {} /\ DOMAIN s.held = {} THEN {s} ELSE {}
    [] OTHER         -> {}
Hidden(h, s) == HiddenLin(s)
Traces == ndJsonDeserialize(IOEnv.TRACES)
INSTANCE Replay
=============================================================================
