------------------------------ MODULE OnceModel -----------------------------
(* threads::Once: unlocked test, lock, test again, execute, set, unlock.     *)
EXTENDS Sync
CONSTANTS THREADS, CALLS
VARIABLES flag, mutex, pc, left, abs
vars == <<flag, mutex, pc, left, abs>>
A0 == [once |-> <<0>>, oc |-> {}]
Init == flag = FALSE /\ mutex = 0 /\ pc = [t \in THREADS |-> "idle"] /\ left = [t \in THREADS |-> CALLS] /\ abs = A0
Must(S) == IF S = {} THEN Assert(FALSE, "not allowed by the specification") ELSE abs' \in S
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Ask(t) == pc[t] = "idle" /\ left[t] > 0 /\ Go(t, "test") /\ left' = [left EXCEPT ![t] = @ - 1] /\ Must(OnceBegin(abs, t, 1)) /\ UNCHANGED <<flag, mutex>>
Test(t) == pc[t] = "test" /\ Go(t, IF flag THEN "ret" ELSE "lock") /\ UNCHANGED <<flag, mutex, left, abs>>
Lock(t) == pc[t] = "lock" /\ mutex = 0 /\ mutex' = t /\ Go(t, "again") /\ UNCHANGED <<flag, left, abs>>
Again(t) == pc[t] = "again" /\ (IF flag THEN Go(t, "unlock") /\ UNCHANGED abs ELSE Go(t, "run") /\ Must(ExecBegin(abs, 1))) /\ UNCHANGED <<flag, mutex, left>>
Run(t) == pc[t] = "run" /\ Go(t, "set") /\ Must(ExecEnd(abs, 1)) /\ UNCHANGED <<flag, mutex, left>>
SetF(t) == pc[t] = "set" /\ flag' = TRUE /\ Go(t, "unlock") /\ UNCHANGED <<mutex, left, abs>>
Unlock(t) == pc[t] = "unlock" /\ mutex' = 0 /\ Go(t, "ret") /\ UNCHANGED <<flag, left, abs>>
Ret(t) == pc[t] = "ret" /\ Go(t, "idle") /\ Must(OnceEnd(abs, t, 1, 1, 1)) /\ UNCHANGED <<flag, mutex, left>>
Done == \A t \in THREADS : pc[t] = "idle" /\ left[t] = 0
Next == (\E t \in THREADS : Ask(t) \/ Test(t) \/ Lock(t) \/ Again(t) \/ Run(t) \/ SetF(t) \/ Unlock(t) \/ Ret(t)) \/ (Done /\ UNCHANGED vars)
FlagMeansDone == flag => abs.once[1] = 2
=============================================================================
