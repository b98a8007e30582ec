------------------------------ MODULE MpiMutex ------------------------------
(***************************************************************************)
(* Distributed mutexes: any number of places, each held by at most one     *)
(* thread <<rank, thread>> at a time.  A thread that asks gets it; a       *)
(* release always returns.  Termination: no run ends while somebody waits. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
M0 == [hold |-> << >>, wait |-> << >>, leaving |-> {}, tags |-> << >>]
Ask(s, w, p) == IF w \in DOMAIN s.wait THEN {} ELSE {[s EXCEPT !.wait = With(@, w, p)]}
Enter(s, w, p) == IF p \notin DOMAIN s.hold /\ w \in DOMAIN s.wait /\ s.wait[w] = p
                  THEN {[s EXCEPT !.hold = With(@, p, w), !.wait = Without(@, w)]} ELSE {}
Release(s, w, p) == IF p \in DOMAIN s.hold /\ s.hold[p] = w THEN {[s EXCEPT !.hold = Without(@, p), !.leaving = @ \cup {w}]} ELSE {}
Released(s, w, p) == IF w \in s.leaving THEN {[s EXCEPT !.leaving = @ \ {w}]} ELSE {}
\* tag ranges handed out by one communicator never overlap, and are the same on all ranks
Tags(s, r, c, n, v) ==
  LET mine == {q \in DOMAIN s.tags : q[1] = r /\ q[2] = c}
      i == Cardinality(mine) IN
  IF /\ v >= 0
     /\ \A q \in mine : v >= s.tags[q][1] + s.tags[q][2] \/ v + n <= s.tags[q][1]
     /\ \A q \in DOMAIN s.tags : (q[2] = c /\ q[3] = i) => s.tags[q] = <<v, n>>
  THEN {[s EXCEPT !.tags = With(@, <<r, c, i>>, <<v, n>>)]} ELSE {}
=============================================================================
