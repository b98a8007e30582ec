---------------------------- MODULE NumaCommModel ---------------------------
(***************************************************************************)
(* Communicators of the domains: creation by domain 0 followed by a        *)
(* broadcast of the pointer on the process's domain rendezvous, use        *)
(* (broadcast of a value, allocation: broadcast of an address) on the      *)
(* communicator's own one.  All domains run the same program of OPS        *)
(* operations; nothing but the rendezvous keeps them together.             *)
(***************************************************************************)
EXTENDS Sync
CONSTANTS D, PROG      \* PROG: sequence of <<"new", c>>, <<"bc", c, root>>, <<"alloc", c, size>>
VARIABLES proc, comm, handle, pc, st, got, heap, val
vars == <<proc, comm, handle, pc, st, got, heap, val>>
\* proc: rendezvous of the domains; comm: name -> rendezvous; handle[d][c]: the name domain d has for communicator c
Dom == 0..D-1
Init == /\ proc = Obj0 /\ comm = << >> /\ handle = [d \in Dom |-> << >>] /\ pc = [d \in Dom |-> 1] /\ st = [d \in Dom |-> "go"]
        /\ got = [d \in Dom |-> << >>] /\ heap = 0 /\ val = [d \in Dom |-> 0]
Op(d) == PROG[pc[d]]
Running(d) == pc[d] <= Len(PROG)
Finish(d) == pc' = [pc EXCEPT ![d] = @ + 1] /\ st' = [st EXCEPT ![d] = "go"]
\* creation
NewBegin(d) ==
  /\ Running(d) /\ Op(d)[1] = "new" /\ st[d] = "go" /\ MayEnter(proc)
  /\ IF d = 0 THEN LET nm == Cardinality(DOMAIN comm) + 1 IN comm' = With(comm, nm, Obj0) /\ proc' = Enter(proc, d, D, TRUE, nm, TRUE)
     ELSE proc' = Enter(proc, d, D, FALSE, 0, FALSE) /\ UNCHANGED comm
  /\ st' = [st EXCEPT ![d] = "in"] /\ UNCHANGED <<handle, pc, got, heap, val>>
NewEnd(d) ==
  /\ Running(d) /\ Op(d)[1] = "new" /\ st[d] = "in" /\ MayLeave(proc, d)
  /\ handle' = [handle EXCEPT ![d] = With(@, Op(d)[2], proc.val)] /\ proc' = Leave(proc, d)
  /\ Finish(d) /\ UNCHANGED <<comm, got, heap, val>>
\* use
My(d) == handle[d][Op(d)[2]]
UseBegin(d) ==
  /\ Running(d) /\ Op(d)[1] \in {"bc", "alloc"} /\ st[d] = "go" /\ MayEnter(comm[My(d)])
  /\ LET root == IF Op(d)[1] = "bc" THEN Op(d)[3] ELSE 0
         v == IF Op(d)[1] = "bc" THEN 100 * pc[d] + d ELSE heap IN
     /\ comm' = [comm EXCEPT ![My(d)] = Enter(@, d, D, d = root, v, d = root)]
     /\ heap' = (IF Op(d)[1] = "alloc" /\ d = 0 THEN heap + D * Op(d)[3] ELSE heap)
  /\ st' = [st EXCEPT ![d] = "in"] /\ UNCHANGED <<proc, handle, pc, got, val>>
UseEnd(d) ==
  /\ Running(d) /\ Op(d)[1] \in {"bc", "alloc"} /\ st[d] = "in" /\ MayLeave(comm[My(d)], d)
  /\ LET v == comm[My(d)].val IN
     got' = [got EXCEPT ![d] = Append(@, IF Op(d)[1] = "bc" THEN <<"bc", v>> ELSE <<"mem", v + d * Op(d)[3], Op(d)[3]>>)]
  /\ comm' = [comm EXCEPT ![My(d)] = Leave(@, d)]
  /\ Finish(d) /\ UNCHANGED <<proc, handle, heap, val>>
Done == \A d \in Dom : ~Running(d)
Next == (\E d \in Dom : NewBegin(d) \/ NewEnd(d) \/ UseBegin(d) \/ UseEnd(d)) \/ (Done /\ UNCHANGED vars)
\* every domain has the same communicators, and different names for different ones
SameComm == \A d, e \in Dom : \A c \in DOMAIN handle[d] \cap DOMAIN handle[e] : handle[d][c] = handle[e][c]
Distinct == \A d \in Dom : \A c1, c2 \in DOMAIN handle[d] : c1 # c2 => handle[d][c1] # handle[d][c2]
\* the uses of a program: the i-th use
Uses == SelectSeq(PROG, LAMBDA o : o[1] # "new")
Pos(i) == CHOOSE p \in 1..Len(PROG) : PROG[p] = PROG[p] /\ Len(SelectSeq(SubSeq(PROG, 1, p), LAMBDA o : o[1] # "new")) = i /\ PROG[p][1] # "new"
Values == \A d \in Dom : \A i \in 1..Len(got[d]) :
  got[d][i][1] = "bc" => got[d][i][2] = 100 * Pos(i) + Uses[i][3]
Parts == \A d, e \in Dom : \A i \in 1..Len(got[d]), j \in 1..Len(got[e]) :
  (got[d][i][1] = "mem" /\ got[e][j][1] = "mem" /\ <<d, i>> # <<e, j>>) =>
     \/ got[d][i][2] + got[d][i][3] <= got[e][j][2] \/ got[e][j][2] + got[e][j][3] <= got[d][i][2]
InOrder == \A d, e \in Dom : \A i \in 1..Len(got[d]) : (i <= Len(got[e]) /\ got[d][i][1] = "mem") => got[e][i][2] - got[d][i][2] = (e - d) * got[d][i][3]
Program == <<<<"new", 1>>, <<"bc", 1, 1>>, <<"new", 2>>, <<"alloc", 2, 3>>, <<"bc", 2, 0>>, <<"alloc", 1, 2>>, <<"bc", 1, 2>>, <<"new", 3>>, <<"alloc", 3, 1>>>>
=============================================================================
