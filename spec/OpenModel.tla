------------------------------ MODULE OpenModel ------------------------------
(***************************************************************************)
(* How open is made of its parts: the threads of all processes register,   *)
(* one thread per domain opens the file and runs the steps of its level,   *)
(* and all threads of a process meet again to exchange the return value.   *)
(* A step of a domain master is                                            *)
(*   "file"   the file is opened (may fail in any set of domains, alike on *)
(*            all processes);                                              *)
(*   "alloc"  domain 0 allocates for all (may fail);                       *)
(*   "coll"   an MPI operation of all processes, called by domain 0        *)
(*            (may fail, on all processes);                                *)
(*   "agree"  the domain masters of the process exchange their errors;     *)
(*   "bcast"  a broadcast among the domain masters of the process;         *)
(*   "load"   local work.                                                  *)
(* Registration decides which thread becomes master of which domain, in    *)
(* any order.  Several levels are opened one after the other, without      *)
(* anything in between.  LoseOne = TRUE: "agree" forgets what the others   *)
(* say - which this protocol does not survive.                             *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS R, T, D, Levels, Prog, LoseOne
VARIABLES dom, bad, pc, step, lev, master, id, ndom, domid, arrT, genT, arrD, genD, arrC, genC, wait, err, ret, bval, derr
Rk == 0..R-1
Th == 0..T-1
RT == Rk \X Th
vars == <<dom, bad, pc, step, lev, master, id, ndom, domid, arrT, genT, arrD, genD, arrC, genC, wait, err, ret, bval, derr>>
None == 99
\* what fails when a level is opened: where a step fails it does so alike on all processes
\* (which all have a domain 0)
Bad == {<<"none", {}>>, <<"alloc", {0}>>, <<"coll", {0}>>} \cup
       {<<"file", F>> : F \in {F \in SUBSET (0..D-1) : F # {} /\ (R > 1 => 0 \in F)}}
Init ==
  /\ dom \in [RT -> 0..D-1] /\ bad \in [1..Levels -> Bad]
  /\ pc = [x \in RT |-> "reg"] /\ step = [x \in RT |-> 1] /\ lev = [x \in RT |-> 1]
  /\ master = [x \in RT |-> FALSE] /\ id = [x \in RT |-> None] /\ domid = [r \in Rk |-> [d \in 0..D-1 |-> None]] /\ ndom = [r \in Rk |-> 0]
  /\ arrT = [r \in Rk |-> 0] /\ genT = [r \in Rk |-> 0] /\ arrD = [r \in Rk |-> 0] /\ genD = [r \in Rk |-> 0]
  /\ arrC = 0 /\ genC = 0 /\ wait = [x \in RT |-> 0]
  /\ err = [x \in RT |-> 0] /\ ret = [x \in RT |-> << >>] /\ bval = [r \in Rk |-> 0] /\ derr = [r \in Rk |-> <<0, 0>>]
Did(x) == domid[x[1]][dom[x]]
\* registration: ids and domains are given in the order of arrival, then all wait
Reg(x) == LET r == x[1] d == dom[x] new == domid[r][d] = None IN
  /\ pc[x] = "reg" /\ id[x] = None
  /\ id' = [id EXCEPT ![x] = arrT[r]]
  /\ master' = [master EXCEPT ![x] = new]
  /\ domid' = IF new THEN [domid EXCEPT ![r][d] = ndom[r]] ELSE domid
  /\ ndom' = IF new THEN [ndom EXCEPT ![r] = @ + 1] ELSE ndom
  /\ wait' = [wait EXCEPT ![x] = genT[r]]
  /\ IF arrT[r] + 1 = T THEN arrT' = [arrT EXCEPT ![r] = 0] /\ genT' = [genT EXCEPT ![r] = @ + 1]
                        ELSE arrT' = [arrT EXCEPT ![r] = @ + 1] /\ UNCHANGED genT
  /\ pc' = [pc EXCEPT ![x] = "regwait"]
  /\ UNCHANGED <<dom, bad, step, lev, arrD, genD, arrC, genC, err, ret, bval, derr>>
RegDone(x) ==
  /\ pc[x] = "regwait" /\ genT[x[1]] > wait[x]
  /\ pc' = [pc EXCEPT ![x] = IF master[x] THEN "run" ELSE "final"]
  /\ UNCHANGED <<dom, bad, step, lev, master, id, ndom, domid, arrT, genT, arrD, genD, arrC, genC, wait, err, ret, bval, derr>>
Advance(x) == IF step[x] = Len(Prog) THEN pc' = [pc EXCEPT ![x] = "final"] /\ UNCHANGED step
                                     ELSE step' = [step EXCEPT ![x] = @ + 1] /\ pc' = [pc EXCEPT ![x] = "run"]
Fails(x, k) == bad[lev[x]][1] = k /\ Did(x) \in bad[lev[x]][2]
\* local steps; an error is not acted upon before all domain masters know it
Local(x) == LET k == Prog[step[x]] IN
  /\ pc[x] = "run" /\ k \in {"file", "alloc", "load"}
  /\ err' = IF Fails(x, k) THEN [err EXCEPT ![x] = 1] ELSE err
  /\ Advance(x)
  /\ UNCHANGED <<dom, bad, lev, master, id, ndom, domid, arrT, genT, arrD, genD, arrC, genC, wait, ret, bval, derr>>
\* the errors of one round are kept apart from those of the next
Slot(g) == (g % 2) + 1
Agree(x) == LET r == x[1]
                k == Slot(genD[r])
                new == IF arrD[r] = 0 THEN 0 ELSE derr[r][k] IN
  /\ pc[x] = "run" /\ Prog[step[x]] = "agree"
  /\ wait' = [wait EXCEPT ![x] = genD[r]]
  /\ derr' = [derr EXCEPT ![r][k] = IF err[x] = 1 THEN 1 ELSE new]
  /\ IF arrD[r] + 1 = ndom[r] THEN arrD' = [arrD EXCEPT ![r] = 0] /\ genD' = [genD EXCEPT ![r] = @ + 1]
                              ELSE arrD' = [arrD EXCEPT ![r] = @ + 1] /\ UNCHANGED genD
  /\ pc' = [pc EXCEPT ![x] = "await"]
  /\ UNCHANGED <<dom, bad, step, lev, master, id, ndom, domid, arrT, genT, arrC, genC, err, ret, bval>>
AgreeDone(x) == LET r == x[1]
                    all == IF LoseOne THEN err[x] ELSE derr[r][Slot(wait[x])] IN
  /\ pc[x] = "await" /\ genD[r] > wait[x]
  /\ err' = [err EXCEPT ![x] = all]
  /\ IF all = 1 THEN pc' = [pc EXCEPT ![x] = "final"] /\ UNCHANGED step ELSE Advance(x)
  /\ UNCHANGED <<dom, bad, lev, master, id, ndom, domid, arrT, genT, arrD, genD, arrC, genC, wait, ret, bval, derr>>
Bcast(x) == LET r == x[1] IN
  /\ pc[x] = "run" /\ Prog[step[x]] = "bcast"
  /\ wait' = [wait EXCEPT ![x] = genD[r]]
  /\ IF arrD[r] + 1 = ndom[r] THEN arrD' = [arrD EXCEPT ![r] = 0] /\ genD' = [genD EXCEPT ![r] = @ + 1]
                              ELSE arrD' = [arrD EXCEPT ![r] = @ + 1] /\ UNCHANGED genD
  /\ pc' = [pc EXCEPT ![x] = "bwait"]
  /\ UNCHANGED <<dom, bad, step, lev, master, id, ndom, domid, arrT, genT, arrC, genC, err, ret, bval, derr>>
BcastDone(x) ==
  /\ pc[x] = "bwait" /\ genD[x[1]] > wait[x] /\ Advance(x)
  /\ UNCHANGED <<dom, bad, lev, master, id, ndom, domid, arrT, genT, arrD, genD, arrC, genC, wait, err, ret, bval, derr>>
Coll(x) ==
  /\ pc[x] = "run" /\ Prog[step[x]] = "coll"
  /\ IF Did(x) # 0 \/ Fails(x, "coll") THEN Advance(x) /\ UNCHANGED <<arrC, genC, wait>>
     ELSE /\ wait' = [wait EXCEPT ![x] = genC]
          /\ IF arrC + 1 = R THEN arrC' = 0 /\ genC' = genC + 1 ELSE arrC' = arrC + 1 /\ UNCHANGED genC
          /\ pc' = [pc EXCEPT ![x] = "cwait"] /\ UNCHANGED step
  /\ err' = IF Fails(x, "coll") THEN [err EXCEPT ![x] = 1] ELSE err
  /\ UNCHANGED <<dom, bad, lev, master, id, ndom, domid, arrT, genT, arrD, genD, ret, bval, derr>>
CollDone(x) ==
  /\ pc[x] = "cwait" /\ genC > wait[x] /\ Advance(x)
  /\ UNCHANGED <<dom, bad, lev, master, id, ndom, domid, arrT, genT, arrD, genD, arrC, genC, wait, err, ret, bval, derr>>
\* all threads of the process: thread 0 gives its return value to the others
Final(x) == LET r == x[1] IN
  /\ pc[x] = "final"
  /\ bval' = IF id[x] = 0 THEN [bval EXCEPT ![r] = err[x]] ELSE bval
  /\ wait' = [wait EXCEPT ![x] = genT[r]]
  /\ IF arrT[r] + 1 = T THEN arrT' = [arrT EXCEPT ![r] = 0] /\ genT' = [genT EXCEPT ![r] = @ + 1]
                        ELSE arrT' = [arrT EXCEPT ![r] = @ + 1] /\ UNCHANGED genT
  /\ pc' = [pc EXCEPT ![x] = "fwait"]
  /\ UNCHANGED <<dom, bad, step, lev, master, id, ndom, domid, arrD, genD, arrC, genC, err, ret, derr>>
\* (that the value survives until all have read it is the matter of Sync.tla; here the
\*  next Final of thread 0 needs the others to have left this one)
FinalDone(x) == LET r == x[1] IN
  /\ pc[x] = "fwait" /\ genT[r] > wait[x]
  /\ id[x] = 0 => \A t \in Th : id[<<r, t>>] # 0 => lev[<<r, t>>] > lev[x]
  /\ ret' = [ret EXCEPT ![x] = Append(@, bval[r])]
  /\ lev' = [lev EXCEPT ![x] = @ + 1] /\ step' = [step EXCEPT ![x] = 1] /\ err' = [err EXCEPT ![x] = 0]
  /\ pc' = [pc EXCEPT ![x] = IF lev[x] = Levels THEN "done" ELSE IF master[x] THEN "run" ELSE "final"]
  /\ UNCHANGED <<dom, bad, master, id, ndom, domid, arrT, genT, arrD, genD, arrC, genC, wait, bval, derr>>
\* the steps of the levels as they are in the code (the file type decides nothing else)
Full == <<"file", "agree", "alloc", "agree", "load">>
FullWin == <<"file", "agree", "alloc", "agree", "load", "bcast", "coll", "agree", "bcast">>
FullThread == <<"file", "agree", "alloc", "agree", "load", "bcast", "coll", "coll", "agree", "bcast">>
CacheWin == <<"file", "agree", "alloc", "agree", "load", "bcast", "coll", "coll", "agree", "bcast">>
Pass == <<"file", "agree">>
Kinds == {Prog[i] : i \in DOMAIN Prog}
Next == \E x \in RT : Reg(x) \/ RegDone(x) \/ Local(x) \/ Agree(x) \/ AgreeDone(x) \/ Bcast(x) \/ BcastDone(x) \/ Coll(x) \/ CollDone(x) \/ Final(x) \/ FinalDone(x)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == \A x \in RT : pc[x] = "done"
Same ==          \* every thread of every process gets to know if anything failed
  \A x \in RT : \A i \in DOMAIN ret[x] :
    ret[x][i] = (IF bad[i][1] \in Kinds /\ \E d \in bad[i][2] : d < ndom[x[1]] THEN 1 ELSE 0)
\* nobody returns from the open of a level before everybody has called it and every domain is done with it
Together == \A x \in RT : \A t \in Th : LET y == <<x[1], t>> IN
  lev[y] >= lev[x] - 1 /\ (lev[y] = lev[x] - 1 => pc[y] = "fwait")
OneMaster == \A r \in Rk : (\A t \in Th : id[<<r, t>>] # None) => \A d \in 0..D-1 :
  Cardinality({t \in Th : dom[<<r, t>>] = d /\ master[<<r, t>>]}) = (IF \E t \in Th : dom[<<r, t>>] = d THEN 1 ELSE 0)
Ids == \A r \in Rk : \A t, u \in Th : t # u /\ id[<<r, t>>] # None => id[<<r, t>>] # id[<<r, u>>]
Zero == \A x \in RT : id[x] = 0 => master[x] /\ Did(x) = 0
Ends == <>Done
NoStop == Done \/ ENABLED Next
=============================================================================
