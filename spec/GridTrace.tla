----------------------------- MODULE GridTrace -----------------------------
(* Accepts exactly the recorded runs that are behaviours of Grid. *)
EXTENDS Grid, Json, IOUtils, TLCExt
Traces == ndJsonDeserialize(IOEnv.TRACES)
NT == Len(Traces)

StatKeys(e) == DOMAIN e \ {"e", "r", "t"}
Step(h, s, e) ==
  CASE e.e = "create"   -> IF e.ok = 1 THEN Create(h, s, e.r, e.g, e.kind, e.h) ELSE {}
    [] e.e = "threads"  -> IF e.code = 0 THEN SetThreads(h, s, e.r, e.g, e.n) ELSE {}
    [] e.e = "comm"     -> SetComm(h, s, e.r, e.g, e.c, e.code)
    [] e.e = "param"    -> Param(h, s, e.r, e.g, e.n, e.v, e.l)
    [] e.e = "openb"    -> OpenBegin(h, s, e.r, e.t, e.g, e.f, e.l, e.s)
    [] e.e = "open"     -> Open(h, s, e.r, e.t, e.g, e.l, e.code)
    [] e.e = "rd"       -> Read(h, s, e.r, e.t, e.var, e.start, e.count)
    [] e.e = "get"      -> GetVal(h, s, e.r, e.t, e.g, e.l, e.k, e.p, e.v)
    [] e.e = "edge"     -> Edge(h, s, e.r, e.t, e.g, e.l, e.bits, e.v)
    [] e.e = "meta"     -> Meta(h, s, e.r, e.t, e.g, e.l, e)
    [] e.e = "counters" -> Counters(h, s, e.r, e.g, e.l, e)
    [] e.e = "counter"  -> Counter(h, s, e.r, e.g, e.l, e.n, e.v)
    [] e.e = "closeb"   -> CloseBegin(h, s, e.r, e.g)
    [] e.e = "close"    -> Close(h, s, e.r, e.g)
    [] e.e = "startcomm" -> StartComm(h, s, e.r, e.code)
    [] e.e = "stopcomm" -> {[s EXCEPT !.comm = @ \ {e.r}]}
    [] e.e = "stat"     -> Stat(h, s, e.r, [k \in StatKeys(e) |-> e[k]])
    [] e.e = "nodelocal" -> NodeLocal(h, s, e.r, e.c, e.v)
    [] e.e = "const"  -> Const(s, e.n, e.cpp, e.c, e.f)
    [] e.e = "set"      -> IF e.k = "mpifail" THEN MpiMayFail(h, s, e.r, e.n)
                           ELSE {IF e.k = "ncfail" THEN [s EXCEPT !.ncfail[e.r] = e.n]
                            ELSE IF e.k = "ncfailn" THEN [s EXCEPT !.ncfail[e.r] = 0] ELSE s}
    [] e.e = "ncerr"    -> NcFailed(h, s, e.r)
    [] e.e = "mpierr"   -> MpiFailed(h, s, e.r)
    [] e.e = "verdict"  -> IF e.v = "ok" THEN {s} ELSE {}
    [] e.e = "end"      -> IF DOMAIN s.pend = {} THEN {s} ELSE {}
    [] OTHER            -> {}      \* an anomaly noticed by the simulated environment

VARIABLES tr, pos, st
vars == <<tr, pos, st>>
Init == (\A i \in 1..NT : TLCSet(i, 0)) /\ tr \in 1..NT /\ pos = 1 /\ st = Init0(Traces[tr].h)
Next ==
  /\ pos <= Len(Traces[tr].ev)
  /\ st' \in Step(Traces[tr].h, st, Traces[tr].ev[pos])
  /\ pos' = pos + 1
  /\ tr' = tr
Spec == Init /\ [][Next]_vars
\* progress of each trace, collected while exploring
Seen == IF TLCGet(tr) < pos THEN TLCSet(tr, pos) ELSE TRUE
Report ==
  /\ \A i \in 1..NT : TLCGet(i) > Len(Traces[i].ev) \/ PrintT("REJ " \o ToString(i) \o " " \o ToString(TLCGet(i)))
  /\ PrintT("VALIDATED " \o ToString(NT))
=============================================================================
