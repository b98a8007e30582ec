--------------------------- MODULE CommThreadTrace --------------------------
EXTENDS CommThread, Json, IOUtils
VARIABLES tr, pos, st
Init0(h) == S0(h.R, h.cpus)
Step(h, s, e) ==
  CASE e.e = "comm"   -> Join(s, e.r, e.k, e.c, e.rank, e.size)
    [] e.e = "startb" -> StartBegin(s, e.r, e.cpu, e.k)
    [] e.e = "pin"    -> Pin(s, e.r, e.t, e.cpu, e.n)
    [] e.e = "start"  -> Start(s, e.r, e.code)
    [] e.e = "stopb"  -> StopBegin(s, e.r)
    [] e.e = "stop"   -> Stop(s, e.r)
    [] e.e = "regb"   -> RegBegin(s, e.r, e.j, e.k)
    [] e.e = "reg"    -> Reg(s, e.r, e.j, e.k, e.tag, e.code)
    [] e.e = "unregb" -> UnregBegin(s, e.r, e.j)
    [] e.e = "unreg"  -> Unreg(s, e.r, e.j)
    [] e.e = "sendb"  -> SendBegin(s, e.r, e.t, e.j, e.dest, e.v)
    [] e.e = "send"   -> SendEnd(s, e.r, e.t, e.j, e.v)
    [] e.e = "recv"   -> Recv(s, e.r, e.t - 1000, e.j, e.from, e.v, e.alive)
    [] e.e = "recvd"  -> Recvd(s, e.r, e.j)
    [] e.e = "stat"   -> IF \A k \in DOMAIN e \ {"e", "r", "t", "live_thread"} : e[k] = 0 THEN
                           IF "live_thread" \in DOMAIN e => e.live_thread = h.T + (IF s.run[e.r] = "on" THEN 1 ELSE 0) THEN {s} ELSE {} ELSE {}
    [] e.e = "quiet"  -> IF Quiet(s) THEN {s} ELSE {}
    [] e.e = "end"    -> IF Quiet(s) THEN {s} ELSE {}
    [] OTHER          -> {}
Hidden(h, s) == {}
Traces == ndJsonDeserialize(IOEnv.TRACES)
INSTANCE Replay
=============================================================================
