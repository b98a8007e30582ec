-------------------------------- MODULE Numa --------------------------------
(***************************************************************************)
(* Registration of the threads of a process and the grouping into domains, *)
(* on top of Sync (objects: 2k threads, 2k+1 domains of process object k,  *)
(* 8+c communicator c).                                                    *)
(*   s.node[k]  thread -> NUMA node, for the threads that asked            *)
(*   s.reg[k]   thread -> what it was told                                 *)
(***************************************************************************)
EXTENDS Sync
N0 == [o |-> [k \in 0..15 |-> Obj0], p |-> << >>, n |-> 0, node |-> [k \in 0..3 |-> << >>], reg |-> [k \in 0..3 |-> << >>], comm |-> << >>, inreg |-> {}]
Range(f) == {f[x] : x \in DOMAIN f}
SetN(s, n, code) == IF code = 0 THEN {[s EXCEPT !.n = n]} ELSE {}
\* a thread that is registered already keeps its node whatever it is running on now
RegBegin(s, t, k, node) == {[s EXCEPT !.node[k] = IF t \in DOMAIN @ THEN @ ELSE With(@, t, node), !.inreg = @ \cup {t}]}
RegEnd(s, t, k, e) ==
  LET nodes == Range(s.node[k])
      R == s.reg[k]
      me == [m |-> e.m, id |-> e.id, dom |-> e.dom] IN
  IF /\ t \in s.inreg /\ e.code = 0
     /\ Cardinality(DOMAIN s.node[k]) = s.n              \* all threads asked
     /\ e.n = s.n /\ e.d = Cardinality(nodes)
     /\ e.id \in 0..s.n-1 /\ e.dom \in 0..e.d-1
     /\ t \in DOMAIN R => R[t] = me
     /\ \A u \in DOMAIN R \ {t} : /\ R[u].id # e.id
                                  /\ (R[u].dom = e.dom) <=> (s.node[k][u] = s.node[k][t])
                                  /\ R[u].dom = e.dom => ~(R[u].m = 1 /\ e.m = 1)
     \* the last one: every domain has its master
     /\ Cardinality(DOMAIN R \cup {t}) = s.n => LET Q == With(R, t, me) IN \A d \in 0..e.d-1 : \E u \in DOMAIN Q : Q[u].dom = d /\ Q[u].m = 1
  THEN {[s EXCEPT !.reg[k] = With(@, t, me), !.inreg = @ \ {t}]} ELSE {}
\* communicators: the same object for all domains, another one than all that exist
Comm(s, t, e) ==
  LET R == s.reg[0][t] IN
  IF /\ e.id = R.id /\ e.dom = R.dom /\ e.n = s.n /\ e.d = Cardinality(Range(s.node[0]))
     /\ \A c \in DOMAIN s.comm : (c = e.c) <=> (s.comm[c] = e.p)
  THEN {[s EXCEPT !.comm = With(@, e.c, e.p)]} ELSE {}
Part(s, e) == IF e.off = e.dom * e.size /\ e.good = e.size THEN {s} ELSE {}
=============================================================================
