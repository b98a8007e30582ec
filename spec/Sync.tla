-------------------------------- MODULE Sync --------------------------------
(***************************************************************************)
(* A reusable rendezvous of n participants with a value from one of them.  *)
(* A round fills while its participants enter; when the n-th has entered,  *)
(* all leave; the next round fills only after the last one has left.       *)
(*   o.in    participants of the round that fills, in order of entry       *)
(*   o.out   participants of the full round that did not leave yet         *)
(*   o.late  those of `out` that leave after all others                    *)
(*   o.val   value of the round that is full, o.nv the one that fills      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Obj0 == [in |-> {}, out |-> {}, late |-> {}, nlate |-> {}, val |-> 0, nv |-> 0]
MayEnter(o) == o.out = {}
Enter(o, t, n, isroot, v, last) ==
  LET o1 == [o EXCEPT !.in = @ \cup {t}, !.nv = IF isroot THEN v ELSE @, !.nlate = IF last THEN @ \cup {t} ELSE @] IN
  IF Cardinality(o1.in) = n
  THEN [in |-> {}, out |-> o1.in, late |-> o1.nlate, nlate |-> {}, val |-> o1.nv, nv |-> 0]
  ELSE o1
MayLeave(o, t) == t \in o.out /\ (t \in o.late => o.out \subseteq o.late)
Leave(o, t) == [o EXCEPT !.out = @ \ {t}]

\* ---------------------------------------------------------------- observed calls
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
\* s.o: objects; s.p: thread -> call in progress; st: call, in, gone
\* a value is read when the participant leaves, at the latest
Call(s, t, e) == IF t \in DOMAIN s.p THEN {} ELSE {[s EXCEPT !.p = With(@, t, [k |-> e.k, n |-> e.n, root |-> e.root, v |-> e.v, x |-> e.x, last |-> e.last, st |-> "call", val |-> 0])]}
EnterStep(s, t) ==
  LET p == s.p[t]  o == s.o[p.k] IN
  IF p.st = "call" /\ MayEnter(o)
  THEN {[s EXCEPT !.o[p.k] = Enter(o, t, p.n, p.root = 1, p.v, p.last = 1), !.p[t].st = "in"]} ELSE {}
LeaveStep(s, t) ==
  LET p == s.p[t]  o == s.o[p.k] IN
  IF p.st = "in" /\ MayLeave(o, t) THEN {[s EXCEPT !.o[p.k] = Leave(o, t), !.p[t].st = "gone", !.p[t].val = o.val]} ELSE {}
Return(s, t, e) ==
  IF t \in DOMAIN s.p /\ s.p[t].st = "gone" /\ s.p[t].k = e.k /\ e.ok = 1 /\ (s.p[t].root = -1 \/ e.v = s.p[t].val)
  THEN {[s EXCEPT !.p = Without(@, t)]} ELSE {}

\* ---------------------------------------------------------------- one-time initialisation
\* s.once[k]: 0 not started, 1 running, 2 done; s.oc: threads in a call
OnceBegin(s, t, k) == {[s EXCEPT !.oc = @ \cup {<<t, k>>}]}
ExecBegin(s, k) == IF s.once[k] = 0 /\ \E q \in s.oc : q[2] = k THEN {[s EXCEPT !.once[k] = 1]} ELSE {}
ExecEnd(s, k) == IF s.once[k] = 1 THEN {[s EXCEPT !.once[k] = 2]} ELSE {}
OnceEnd(s, t, k, x, y) == IF s.once[k] = 2 /\ <<t, k>> \in s.oc /\ x = 1 /\ y = 1 THEN {[s EXCEPT !.oc = @ \ {<<t, k>>}]} ELSE {}
=============================================================================
