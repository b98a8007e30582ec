------------------------------- MODULE FullMsg -------------------------------
(***************************************************************************)
(* The protocol of FULL grids that exchange blocks with communication      *)
(* threads, from open to close.  R processes with D domains, one thread    *)
(* each; block <<p, d>> belongs to domain d of process p.                  *)
(*   open   every domain loads its block; when all domains of a process    *)
(*          have, domain 0 registers the receiver, collectively with all   *)
(*          other processes; all threads return together                   *)
(*   read   lock the process' mutex, request the block, receive the answer *)
(*   answer the communication thread of the owner sends the block, until   *)
(*          the requesting process takes it (EAGER: goes on at once)       *)
(*   close  barrier of the processes, unregister through one's own         *)
(*          communication thread, free the data                            *)
(* Requests are delivered in order between two processes, answers as well; *)
(* an answer goes to the receive that was posted first.  SYNC: a request   *)
(* waits until it is taken.                                                *)
(* LOCK, WAITLOAD, CLOSEBAR = FALSE leave out the mutex, the wait of the   *)
(* domains before registering, and the barrier: each is necessary.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS R, D, OPS, SYNC, EAGER, LOCK, WAITLOAD, CLOSEBAR
VARIABLES pc, loaded, reg, box, rep, posted, comm, mutex, want, got, left, freed
P == 0..R-1
T == P \X (0..D-1)
NoT == <<-1, -1>>
vars == <<pc, loaded, reg, box, rep, posted, comm, mutex, want, got, left, freed>>
Free == [k |-> "recv"]
Init ==
  /\ pc = [t \in T |-> "load"] /\ loaded = {} /\ reg = [p \in P |-> "no"] /\ box = [p \in P |-> [q \in P |-> << >>]]
  /\ rep = [p \in P |-> [q \in P |-> << >>]] /\ posted = [p \in P |-> [q \in P |-> << >>]]
  /\ comm = [p \in P |-> Free] /\ mutex = [p \in P |-> NoT] /\ want = [t \in T |-> NoT] /\ got = [t \in T |-> NoT]
  /\ left = [t \in T |-> OPS] /\ freed = {}
Mine(t) == {<<t[1], d>> : d \in 0..D-1}
Load(t) ==
  /\ pc[t] = "load" /\ loaded' = loaded \cup {t} /\ pc' = [pc EXCEPT ![t] = "loaded"]
  /\ UNCHANGED <<reg, box, rep, posted, comm, mutex, want, got, left, freed>>
\* domain 0 enters the collective registration
Register(t) ==
  /\ t[2] = 0 /\ pc[t] = "loaded" /\ (WAITLOAD => Mine(t) \subseteq loaded)
  /\ reg' = [reg EXCEPT ![t[1]] = "yes"] /\ pc' = [pc EXCEPT ![t] = "registering"]
  /\ UNCHANGED <<loaded, box, rep, posted, comm, mutex, want, got, left, freed>>
Registered(t) ==
  /\ pc[t] = "registering" /\ \A p \in P : reg[p] # "no" /\ pc' = [pc EXCEPT ![t] = "final"]
  /\ UNCHANGED <<loaded, reg, box, rep, posted, comm, mutex, want, got, left, freed>>
Opened(t) ==
  /\ pc[t] = IF t[2] = 0 THEN "final" ELSE "loaded"
  /\ pc[<<t[1], 0>>] \notin {"load", "loaded", "registering"} /\ Mine(t) \subseteq loaded
  /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ UNCHANGED <<loaded, reg, box, rep, posted, comm, mutex, want, got, left, freed>>
Start(t, b) ==
  /\ pc[t] = "idle" /\ left[t] > 0 /\ b[1] # t[1]
  /\ LOCK => mutex[t[1]] = NoT
  /\ mutex' = IF LOCK THEN [mutex EXCEPT ![t[1]] = t] ELSE mutex
  /\ left' = [left EXCEPT ![t] = @ - 1] /\ want' = [want EXCEPT ![t] = b] /\ got' = [got EXCEPT ![t] = NoT]
  /\ box' = [box EXCEPT ![t[1]][b[1]] = Append(@, [k |-> "req", b |-> b, t |-> t])]
  /\ pc' = [pc EXCEPT ![t] = IF SYNC THEN "sent" ELSE "post"]
  /\ UNCHANGED <<loaded, reg, rep, posted, comm, freed>>
Post(t) ==
  /\ pc[t] = "post" /\ posted' = [posted EXCEPT ![t[1]][want[t][1]] = Append(@, t)] /\ pc' = [pc EXCEPT ![t] = "wait"]
  /\ UNCHANGED <<loaded, reg, box, rep, comm, mutex, want, got, left, freed>>
\* an answer arrives at the receive that was posted first
Match(p, q) ==
  /\ rep[q][p] # << >> /\ posted[p][q] # << >>
  /\ LET t == Head(posted[p][q]) IN got' = [got EXCEPT ![t] = Head(rep[q][p])]
  /\ rep' = [rep EXCEPT ![q][p] = Tail(@)] /\ posted' = [posted EXCEPT ![p][q] = Tail(@)]
  /\ comm' = IF comm[q] = [k |-> "answer", p |-> p] THEN [comm EXCEPT ![q] = Free] ELSE comm
  /\ UNCHANGED <<pc, loaded, reg, box, mutex, want, left, freed>>
Finish(t) ==
  /\ pc[t] = "wait" /\ got[t] # NoT /\ Assert(got[t] = want[t], "a block of somebody else")
  /\ mutex' = (IF LOCK THEN [mutex EXCEPT ![t[1]] = NoT] ELSE mutex) /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ UNCHANGED <<loaded, reg, box, rep, posted, comm, want, got, left, freed>>
Take(p, q) ==       \* the communication thread of p takes a message of q
  /\ comm[p] = Free /\ box[q][p] # << >>
  /\ LET m == Head(box[q][p]) IN
     /\ box' = [box EXCEPT ![q][p] = Tail(@)]
     /\ pc' = IF pc[m.t] = "sent" THEN [pc EXCEPT ![m.t] = "post"] ELSE pc
     /\ IF m.k = "unreg"
        THEN reg' = [reg EXCEPT ![p] = "gone"] /\ UNCHANGED <<rep, comm>>
        ELSE /\ Assert(reg[p] = "yes", "a request that nobody is registered for")
             /\ Assert(m.b \in loaded, "a block that is not loaded yet") /\ Assert(p \notin freed, "a block that was freed")
             /\ rep' = [rep EXCEPT ![p][q] = Append(@, m.b)]
             /\ comm' = IF EAGER THEN comm ELSE [comm EXCEPT ![p] = [k |-> "answer", p |-> q]]
             /\ UNCHANGED reg
  /\ UNCHANGED <<loaded, posted, mutex, want, got, left, freed>>
\* thread 0 closes when the threads of its process are done
Close(t) ==
  /\ t[2] = 0 /\ pc[t] = "idle" /\ \A d \in 0..D-1 : pc[<<t[1], d>>] = "idle" /\ left[<<t[1], d>>] = 0
  /\ pc' = [pc EXCEPT ![t] = "closing"]
  /\ UNCHANGED <<loaded, reg, box, rep, posted, comm, mutex, want, got, left, freed>>
Unreg(t) ==
  /\ pc[t] = "closing" /\ (CLOSEBAR => \A p \in P : pc[<<p, 0>>] \in {"closing", "unreg", "closed"})
  /\ box' = [box EXCEPT ![t[1]][t[1]] = Append(@, [k |-> "unreg", b |-> NoT, t |-> t])]
  /\ pc' = [pc EXCEPT ![t] = "unreg"]
  /\ UNCHANGED <<loaded, reg, rep, posted, comm, mutex, want, got, left, freed>>
FreeIt(t) ==
  /\ pc[t] = "unreg" /\ reg[t[1]] = "gone" /\ freed' = freed \cup {t[1]} /\ pc' = [pc EXCEPT ![t] = "closed"]
  /\ UNCHANGED <<loaded, reg, box, rep, posted, comm, mutex, want, got, left>>
Next == \/ \E t \in T : Load(t) \/ Register(t) \/ Registered(t) \/ Opened(t) \/ Post(t) \/ Finish(t) \/ Close(t) \/ Unreg(t) \/ FreeIt(t)
        \/ \E t \in T, b \in T : Start(t, b)
        \/ \E p, q \in P : Match(p, q) \/ Take(p, q)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == \A p \in P : pc[<<p, 0>>] = "closed"
NoStop == Done \/ ENABLED Next
Clean == Done => \A p, q \in P : box[p][q] = << >> /\ rep[p][q] = << >> /\ posted[p][q] = << >> /\ comm[p] = Free
Right == \A t \in T : pc[t] = "idle" /\ got[t] # NoT => got[t] = want[t]
Ends == <>Done
=============================================================================
