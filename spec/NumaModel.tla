------------------------------ MODULE NumaModel -----------------------------
(***************************************************************************)
(* numa::Numa::registerThread: the id is the number of threads waiting in  *)
(* the barrier, the first thread of a node becomes its domain's master,    *)
(* the last one marks the object initialized before all leave.  Every      *)
(* thread may register several times and move to another node in between.  *)
(***************************************************************************)
EXTENDS Numa
CONSTANTS N, NODES, TIMES
T == 1..N
VARIABLES place, domains, masters, init, sync, key, pc, left, abs, loc
vars == <<place, domains, masters, init, sync, key, pc, left, abs, loc>>
\* domains: node -> domain; masters: id -> bool; key: thread -> <<id, dom>> (thread-specific value); loc: locals
Init ==
  /\ place \in [T -> NODES] /\ domains = << >> /\ masters = [i \in 0..N-1 |-> FALSE] /\ init = FALSE /\ sync = Obj0
  /\ key = << >> /\ pc = [t \in T |-> "idle"] /\ left = [t \in T |-> TIMES]
  /\ abs = [N0 EXCEPT !.n = N] /\ loc = [t \in T |-> [id |-> 0, dom |-> 0, m |-> FALSE]]
Must(S) == IF S = {} THEN Assert(FALSE, <<"not allowed by the specification", place, key, loc>>) ELSE abs' \in S
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Move(t) == /\ pc[t] = "idle" /\ left[t] \in 1..TIMES-1 /\ \E n \in NODES : place' = [place EXCEPT ![t] = n]
           /\ UNCHANGED <<domains, masters, init, sync, key, pc, left, abs, loc>>
Ask(t) == /\ pc[t] = "idle" /\ left[t] > 0 /\ Go(t, "test") /\ left' = [left EXCEPT ![t] = @ - 1]
          /\ Must(RegBegin(abs, t, 0, place[t])) /\ UNCHANGED <<place, domains, masters, init, sync, key, loc>>
Test(t) == /\ pc[t] = "test"
           /\ IF init THEN /\ Assert(t \in DOMAIN key, "registered too early")
                           /\ loc' = [loc EXCEPT ![t] = [id |-> key[t][1], dom |-> key[t][2], m |-> masters[key[t][1]]]] /\ Go(t, "ret")
              ELSE Go(t, "start") /\ UNCHANGED loc
           /\ UNCHANGED <<place, domains, masters, init, sync, key, left, abs>>
Start(t) ==        \* startBarrier to waitBarrier, under the barrier's mutex
  /\ pc[t] = "start" /\ MayEnter(sync)
  /\ LET id == Cardinality(sync.in)  new == place[t] \notin DOMAIN domains
         d == IF new THEN Cardinality(DOMAIN domains) ELSE domains[place[t]] IN
     /\ domains' = (IF new THEN With(domains, place[t], d) ELSE domains)
     /\ masters' = (IF new THEN [masters EXCEPT ![id] = TRUE] ELSE masters)
     /\ init' = (init \/ id >= N - 1)
     /\ loc' = [loc EXCEPT ![t] = [id |-> id, dom |-> d, m |-> new]]
     /\ sync' = Enter(sync, t, N, FALSE, 0, FALSE)
  /\ Go(t, "wait") /\ UNCHANGED <<place, key, left, abs>>
Wait(t) == /\ pc[t] = "wait" /\ MayLeave(sync, t) /\ sync' = Leave(sync, t) /\ Go(t, "key")
           /\ UNCHANGED <<place, domains, masters, init, key, left, abs, loc>>
Key(t) == /\ pc[t] = "key" /\ key' = With(key, t, <<loc[t].id, loc[t].dom>>) /\ Go(t, "ret")
          /\ UNCHANGED <<place, domains, masters, init, sync, left, abs, loc>>
Ret(t) == /\ pc[t] = "ret" /\ Go(t, "idle")
          /\ Must(RegEnd(abs, t, 0, [m |-> IF loc[t].m THEN 1 ELSE 0, id |-> loc[t].id, dom |-> loc[t].dom, code |-> 0, n |-> N, d |-> Cardinality(DOMAIN domains)]))
          /\ UNCHANGED <<place, domains, masters, init, sync, key, left, loc>>
Done == \A t \in T : pc[t] = "idle" /\ left[t] = 0
Next == (\E t \in T : Move(t) \/ Ask(t) \/ Test(t) \/ Start(t) \/ Wait(t) \/ Key(t) \/ Ret(t)) \/ (Done /\ UNCHANGED vars)
=============================================================================
