--------------------------- MODULE NodeLocalModel ---------------------------
(***************************************************************************)
(* How nodeLocalRank works: split the communicator by a hash of the        *)
(* processor name, gather the names of all processes with the same hash    *)
(* and count one's own name among those before oneself.  For all           *)
(* assignments of names to processes, all hashes (also ones that collide), *)
(* and all orders of steps.                                                *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS R, Names, Hashes
VARIABLES name, hash, pc, sub, got, res
P == 0..R-1
vars == <<name, hash, pc, sub, got, res>>
Init ==
  /\ name \in [P -> Names] /\ hash \in [Names -> Hashes]
  /\ pc = [p \in P |-> "split"] /\ sub = [p \in P |-> << >>] /\ got = [p \in P |-> << >>] /\ res = [p \in P |-> -1]
RECURSIVE Order(_)
Order(S) == IF S = {} THEN << >> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Order(S \ {m})
\* collective: nobody gets the new communicator before all have called
Enter(p) == pc[p] = "split" /\ pc' = [pc EXCEPT ![p] = "insplit"] /\ UNCHANGED <<name, hash, sub, got, res>>
Split(p) ==
  /\ pc[p] = "insplit" /\ \A q \in P : pc[q] # "split"
  /\ pc' = [pc EXCEPT ![p] = "gather"]
  /\ sub' = [sub EXCEPT ![p] = Order({q \in P : hash[name[q]] = hash[name[p]]})]
  /\ UNCHANGED <<name, hash, got, res>>
EnterG(p) == pc[p] = "gather" /\ pc' = [pc EXCEPT ![p] = "ingather"] /\ UNCHANGED <<name, hash, sub, got, res>>
Gather(p) ==
  /\ pc[p] = "ingather" /\ \A i \in DOMAIN sub[p] : pc[sub[p][i]] \in {"ingather", "count", "done"}
  /\ pc' = [pc EXCEPT ![p] = "count"]
  /\ got' = [got EXCEPT ![p] = [i \in DOMAIN sub[p] |-> name[sub[p][i]]]]
  /\ UNCHANGED <<name, hash, sub, res>>
Count(p) ==
  /\ pc[p] = "count" /\ pc' = [pc EXCEPT ![p] = "done"]
  /\ res' = [res EXCEPT ![p] = Cardinality({i \in DOMAIN got[p] : got[p][i] = name[p] /\ sub[p][i] < p})]
  /\ UNCHANGED <<name, hash, sub, got>>
Next == \E p \in P : Enter(p) \/ Split(p) \/ EnterG(p) \/ Gather(p) \/ Count(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Correct == \A p \in P : pc[p] = "done" => res[p] = Cardinality({q \in 0..p-1 : name[q] = name[p]})
Numbered ==      \* the processes of one node are numbered from 0
  (\A p \in P : pc[p] = "done") => \A n \in Names : LET S == {p \in P : name[p] = n} IN {res[p] : p \in S} = 0..Cardinality(S)-1
Done == \A p \in P : pc[p] = "done"
Ends == <>Done
NoStop == Done \/ ENABLED Next
=============================================================================
