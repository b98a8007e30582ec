---------------------------- MODULE HandlesModel ----------------------------
(***************************************************************************)
(* How the handles are kept: a growing array under a lock.  Growing takes  *)
(* several steps (a new array is filled, then replaces the old one), which *)
(* the lock hides.  Refines Handles: the map of the array's occupied       *)
(* entries changes as Handles says, at the unlocking of the operation.     *)
(* Threads create, use and close grids.  With Locked = FALSE (get without  *)
(* lock) the model shows a use of the old array's memory.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, MaxAdds, LockGet
H == INSTANCE Handles
VARIABLES lock, mem, cur, size, pc, arg, tab, n, bad
\* mem: address -> array (freed ones are removed), cur: the address in use
vars == <<lock, mem, cur, size, pc, arg, tab, n, bad>>
Init ==
  /\ lock = 0 /\ mem = (0 :> << >>) /\ cur = 0 /\ size = 0
  /\ pc = [t \in Threads |-> "idle"] /\ arg = [t \in Threads |-> 0] /\ tab = << >> /\ n = 0 /\ bad = FALSE
Own(t) == {h \in DOMAIN tab : tab[h] = t}      \* thread t's grids are the objects t
StartAdd(t) == pc[t] = "idle" /\ n < MaxAdds /\ n' = n + 1 /\ pc' = [pc EXCEPT ![t] = "addlock"] /\ UNCHANGED <<lock, mem, cur, size, arg, tab, bad>>
AddLock(t) == pc[t] = "addlock" /\ lock = 0 /\ lock' = t /\ pc' = [pc EXCEPT ![t] = IF Len(mem[cur]) = size THEN "grow" ELSE "push"] /\ UNCHANGED <<mem, cur, size, arg, tab, n, bad>>
Cap(k) == IF k = 0 THEN 1 ELSE 2 * k
Grow(t) ==      \* allocate and copy
  /\ pc[t] = "grow" /\ pc' = [pc EXCEPT ![t] = "swap"]
  /\ LET a == IF cur = 0 THEN 1 ELSE 0 IN      \* memory is reused
     mem' = (a :> [i \in 1..Cap(size) |-> IF i <= size THEN mem[cur][i] ELSE 0]) @@ mem
  /\ UNCHANGED <<lock, cur, size, arg, tab, n, bad>>
Swap(t) ==      \* free the old array
  /\ pc[t] = "swap" /\ pc' = [pc EXCEPT ![t] = "push"]
  /\ cur' = 1 - cur /\ mem' = [x \in {1 - cur} |-> mem[x]]
  /\ UNCHANGED <<lock, size, arg, tab, n, bad>>
Push(t) ==
  /\ pc[t] = "push" /\ pc' = [pc EXCEPT ![t] = "idle"] /\ lock' = 0
  /\ mem' = [mem EXCEPT ![cur][size + 1] = t] /\ size' = size + 1
  /\ bad' = (bad \/ H!Add(tab, t, size) = {})
  /\ tab' = IF H!Add(tab, t, size) = {} THEN tab ELSE CHOOSE m \in H!Add(tab, t, size) : TRUE
  /\ UNCHANGED <<cur, arg, n>>
StartGet(t) == \E h \in DOMAIN tab : pc[t] = "idle" /\ tab[h] = t /\ arg' = [arg EXCEPT ![t] = h]
  /\ pc' = [pc EXCEPT ![t] = IF LockGet THEN "getlock" ELSE "addr"] /\ UNCHANGED <<lock, mem, cur, size, tab, n, bad>>
GetLock(t) == pc[t] = "getlock" /\ lock = 0 /\ lock' = t /\ pc' = [pc EXCEPT ![t] = "addr"] /\ UNCHANGED <<mem, cur, size, arg, tab, n, bad>>
\* the address of the array is read first, then the entry
Addr(t) == pc[t] = "addr" /\ pc' = [pc EXCEPT ![t] = IF cur = 0 THEN "entry0" ELSE "entry1"] /\ UNCHANGED <<lock, mem, cur, size, arg, tab, n, bad>>
Entry(t) ==
  /\ pc[t] \in {"entry0", "entry1"}
  /\ LET a == IF pc[t] = "entry0" THEN 0 ELSE 1
         ok == a \in DOMAIN mem /\ arg[t] + 1 <= Len(mem[a])
     IN bad' = (bad \/ ~ok \/ H!Get(tab, arg[t], mem[a][arg[t] + 1]) = {})
  /\ lock' = IF LockGet THEN 0 ELSE lock
  /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<mem, cur, size, arg, tab, n>>
StartDel(t) == \E h \in DOMAIN tab : pc[t] = "idle" /\ tab[h] = t /\ arg' = [arg EXCEPT ![t] = h] /\ pc' = [pc EXCEPT ![t] = "dellock"] /\ UNCHANGED <<lock, mem, cur, size, tab, n, bad>>
DelLock(t) ==
  /\ pc[t] = "dellock" /\ lock = 0
  /\ mem' = [mem EXCEPT ![cur][arg[t] + 1] = 0]
  /\ bad' = (bad \/ H!Del(tab, arg[t]) = {})
  /\ tab' = [x \in DOMAIN tab \ {arg[t]} |-> tab[x]]
  /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<lock, cur, size, arg, n>>
Next == \E t \in Threads : StartAdd(t) \/ AddLock(t) \/ Grow(t) \/ Swap(t) \/ Push(t) \/ StartGet(t) \/ GetLock(t) \/ Addr(t) \/ Entry(t) \/ StartDel(t) \/ DelLock(t)
Spec == Init /\ [][Next]_vars
Good == ~bad
\* what a handle designates is in the array
Same == \A h \in DOMAIN tab : lock = 0 => mem[cur][h + 1] = tab[h]
=============================================================================
