------------------------------- MODULE Replay -------------------------------
(***************************************************************************)
(* Trace validation: explores, for every recorded trace, the states of the *)
(* instantiated specification that are consistent with a prefix of it.     *)
(* Step(h, s, e): the states reached from s by the observed event e,       *)
(* Hidden(h, s): those reached by a step that leaves no event,             *)
(* Init0(h): the first state for a trace with header h.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils
CONSTANTS Traces, Step(_, _, _), Hidden(_, _), Init0(_)
VARIABLES tr, pos, st
NT == Len(Traces)
vars == <<tr, pos, st>>
Init == (\A i \in 1..NT : TLCSet(i, 0)) /\ tr \in 1..NT /\ pos = 1 /\ st = Init0(Traces[tr].h)
Consume ==
  /\ pos <= Len(Traces[tr].ev)
  /\ st' \in LET e == Traces[tr].ev[pos] IN
             IF e.e = "verdict" THEN (IF e.v = "ok" THEN {st} ELSE {}) ELSE Step(Traces[tr].h, st, e)
  /\ pos' = pos + 1
  /\ tr' = tr
Inner ==
  /\ pos <= Len(Traces[tr].ev)
  /\ st' \in Hidden(Traces[tr].h, st)
  /\ UNCHANGED <<tr, pos>>
Next == Consume \/ Inner
Seen == IF TLCGet(tr) < pos THEN TLCSet(tr, pos) ELSE TRUE
Report ==
  /\ \A i \in 1..NT : TLCGet(i) > Len(Traces[i].ev) \/ PrintT("REJ " \o ToString(i) \o " " \o ToString(TLCGet(i)))
  /\ PrintT("VALIDATED " \o ToString(NT))
=============================================================================
