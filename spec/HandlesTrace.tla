---------------------------- MODULE HandlesTrace ----------------------------
(* Every operation takes effect at one moment between its begin ("b") and end ("f"). *)
EXTENDS Handles, Json, IOUtils
VARIABLES tr, pos, st
\* pend: thread -> [op, o, v, done]
Init0(h) == [tab |-> << >>, pend |-> << >>]
Step(h, s, e) ==
  CASE e.e = "b" -> IF e.t \in DOMAIN s.pend THEN {} ELSE {[s EXCEPT !.pend = (e.t :> [op |-> e.op, o |-> e.o, v |-> e.v, done |-> FALSE]) @@ @]}
    [] e.e = "f" -> IF e.t \in DOMAIN s.pend /\ s.pend[e.t].done THEN {[s EXCEPT !.pend = [x \in DOMAIN @ \ {e.t} |-> @[x]]]} ELSE {}
    [] e.e = "end" -> {s}
    [] OTHER -> {}
Hidden(h, s) ==
  UNION {LET p == s.pend[t] IN
         IF p.done THEN {} ELSE {[tab |-> m, pend |-> [s.pend EXCEPT ![t].done = TRUE]] : m \in Op(s.tab, p.op, p.o, p.v)} : t \in DOMAIN s.pend}
Traces == ndJsonDeserialize(IOEnv.TRACES)
INSTANCE Replay
=============================================================================
