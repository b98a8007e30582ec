---------------------------- MODULE MpiMutexModel ---------------------------
(***************************************************************************)
(* mpi::Mutex: a word per place swapped atomically; the predecessor in the *)
(* queue is told by a synchronous message on the waiter's side, on a tag   *)
(* of the predecessor's own within the mutex object's tag range.           *)
(***************************************************************************)
EXTENDS MpiMutex
CONSTANTS RANKS, THR, PLACES, TIMES, OBJ       \* OBJ: place -> mutex object (tag range)
W == (0..RANKS-1) \X (0..THR-1)
Id(w) == w[1] * THR + w[2]
VARIABLES word, pc, at, pred, left, box, abs
vars == <<word, pc, at, pred, left, box, abs>>
\* box: synchronous messages not received yet: [from, rank, tag]
Init == /\ word = [p \in PLACES |-> -1] /\ pc = [w \in W |-> "idle"] /\ at = [w \in W |-> 0] /\ pred = [w \in W |-> -1]
        /\ left = [w \in W |-> TIMES] /\ box = {} /\ abs = M0
Must(S) == IF S = {} THEN Assert(FALSE, "not allowed by the specification") ELSE abs' \in S
Go(w, p) == pc' = [pc EXCEPT ![w] = p]
Tag(o, t) == o * THR + t
Start(w, p) == /\ pc[w] = "idle" /\ left[w] > 0 /\ left' = [left EXCEPT ![w] = @ - 1] /\ at' = [at EXCEPT ![w] = p] /\ Go(w, "swap")
               /\ Must(Ask(abs, w, p)) /\ UNCHANGED <<word, pred, box>>
Swap(w) == /\ pc[w] = "swap" /\ pred' = [pred EXCEPT ![w] = word[at[w]]] /\ word' = [word EXCEPT ![at[w]] = Id(w)] /\ Go(w, "send")
           /\ UNCHANGED <<at, left, box, abs>>
Send(w) == /\ pc[w] = "send"
           /\ IF pred[w] < 0 THEN Go(w, "enter") /\ UNCHANGED box
              ELSE Go(w, "wait") /\ box' = box \cup {[from |-> w, rank |-> pred[w] \div THR, tag |-> Tag(OBJ[at[w]], pred[w] % THR)]}
           /\ UNCHANGED <<word, at, pred, left, abs>>
EnterCs(w) == pc[w] = "enter" /\ Go(w, "in") /\ Must(Enter(abs, w, at[w])) /\ UNCHANGED <<word, at, pred, left, box>>
LeaveCs(w) == pc[w] = "in" /\ Go(w, "cas") /\ Must(Release(abs, w, at[w])) /\ UNCHANGED <<word, at, pred, left, box>>
Cas(w) == /\ pc[w] = "cas"
          /\ IF word[at[w]] = Id(w) THEN word' = [word EXCEPT ![at[w]] = -1] /\ Go(w, "ret") ELSE Go(w, "recv") /\ UNCHANGED word
          /\ UNCHANGED <<at, pred, left, box, abs>>
Recv(w) == /\ pc[w] = "recv"
           /\ \E m \in box : /\ m.rank = w[1] /\ m.tag = Tag(OBJ[at[w]], w[2])
                             /\ box' = box \ {m} /\ pc' = [pc EXCEPT ![w] = "ret", ![m.from] = "enter"]
           /\ UNCHANGED <<word, at, pred, left, abs>>
Ret(w) == pc[w] = "ret" /\ Go(w, "idle") /\ Must(Released(abs, w, at[w])) /\ UNCHANGED <<word, at, pred, left, box>>
Done == \A w \in W : pc[w] = "idle" /\ left[w] = 0
Next == (\E w \in W : (\E p \in PLACES : Start(w, p)) \/ Swap(w) \/ Send(w) \/ EnterCs(w) \/ LeaveCs(w) \/ Cas(w) \/ Recv(w) \/ Ret(w)) \/ (Done /\ UNCHANGED vars)
Clean == Done => box = {} /\ \A p \in PLACES : word[p] = -1
Obj2 == (1 :> 0 @@ 2 :> 0)
ObjSep == (1 :> 0 @@ 2 :> 1)
=============================================================================
