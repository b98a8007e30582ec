---------------------------- MODULE BlockDirTrace ---------------------------
EXTENDS BlockDir, Json, IOUtils
VARIABLES tr, pos, st
Init0(h) == << >>
Upd(s, b, l) == [s EXCEPT ![b] = l]
Step(h, s, e) ==
  CASE e.e = "new"      -> IF e.code = 0 /\ e.size = SIZE /\ e.rcs = e.cs * e.d THEN {[b \in 0..e.blocks-1 |-> << >>]} ELSE {}
    [] e.e = "fetch"    -> IF e.v \in Lookup(s[e.b]) /\ e.l = s[e.b] THEN {s} ELSE {}
    [] e.e = "dump"     -> IF e.l = s[e.b] THEN {s} ELSE {}
    [] e.e = "lockword" -> IF e.v = -1 THEN {s} ELSE {}
    [] e.e = "reg"      -> LET l == Register(s[e.b], e.h) IN IF e.l = l THEN {Upd(s, e.b, l)} ELSE {}
    [] e.e = "fetchreg" -> LET l == Register(s[e.b], e.h) IN IF e.l = l /\ e.v \in Lookup(s[e.b]) THEN {Upd(s, e.b, l)} ELSE {}
    [] e.e = "unreg"    -> LET l == Unregister(s[e.b], e.h) IN IF e.l = l THEN {Upd(s, e.b, l)} ELSE {}
    [] e.e = "end"      -> {s}
    [] OTHER            -> {}
Hidden(h, s) == {}
Traces == ndJsonDeserialize(IOEnv.TRACES)
INSTANCE Replay
=============================================================================
