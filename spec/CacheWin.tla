------------------------------ MODULE CacheWin ------------------------------
(***************************************************************************)
(* CACHE grids distributed with MPI windows, at the grain of the protocol: *)
(* caches (one per domain of each process) with a lock for the cache and   *)
(* one per slot, a directory entry and a distributed mutex per block, and  *)
(* (if MPI is not thread-safe) one lock per process for all of MPI.        *)
(* Checked: what is read or copied is always the block asked for, nothing  *)
(* gets stuck, and whenever nothing is going on the directory lists        *)
(* exactly the (DIR newest) holders.  The victim of a miss is arbitrary.   *)
(* OPSEQ: calls one after the other; then a file is only read for a block  *)
(* that no domain of the process and no listed cache holds.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS PROCS, DOMS, THR, SLOTS, BLOCKS, DIR, OPS, SERIAL, OPSEQ
C == (1..PROCS) \X (1..DOMS)
T == C \X (1..THR)
S == 1..SLOTS
B == 0..BLOCKS-1
Ca(t) == t[1]
Pr(t) == t[1][1]
No == <<<<0, 0>>, 0>>
VARIABLES idx, cm, sm, mem, dir, mx, ml, pc, blk, slot, old, ent, left, reg
\* idx: block the cache's index has for a slot; mem: what the slot really stores (-1: nothing, -2: half a block)
\* dir: per block the entries <<cache, slot>>, newest first; reg: all registrations of a block, newest first (history)
vars == <<idx, cm, sm, mem, dir, mx, ml, pc, blk, slot, old, ent, left, reg>>
Init == /\ idx = [c \in C |-> [s \in S |-> -1]] /\ cm = [c \in C |-> <<>>] /\ sm = [c \in C |-> [s \in S |-> <<>>]]
        /\ mem = [c \in C |-> [s \in S |-> -1]] /\ dir = [b \in B |-> <<>>] /\ mx = [b \in B |-> <<>>] /\ ml = [p \in 1..PROCS |-> <<>>]
        /\ pc = [t \in T |-> "idle"] /\ blk = [t \in T |-> -1] /\ slot = [t \in T |-> 0] /\ old = [t \in T |-> -1] /\ ent = [t \in T |-> No]
        /\ left = [t \in T |-> OPS] /\ reg = [b \in B |-> <<>>]
Cut(l) == IF Len(l) > DIR THEN SubSeq(l, 1, DIR) ELSE l
Without(l, h) == SelectSeq(l, LAMBDA x : x # h)
Me(t) == <<Ca(t), slot[t]>>
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Idle == \A t \in T : pc[t] = "idle"
Start(t, b) ==
  /\ pc[t] = "idle" /\ left[t] > 0 /\ (OPSEQ => Idle)
  /\ left' = [left EXCEPT ![t] = @ - 1] /\ blk' = [blk EXCEPT ![t] = b] /\ Go(t, "cm")
  /\ UNCHANGED <<idx, cm, sm, mem, dir, mx, ml, slot, old, ent, reg>>
GetCm(t) ==
  LET c == Ca(t) b == blk[t] IN
  /\ pc[t] = "cm" /\ cm[c] = <<>> /\ cm' = [cm EXCEPT ![c] = t] /\ Go(t, "sm")
  /\ IF \E s \in S : idx[c][s] = b
     THEN \E s \in S : idx[c][s] = b /\ slot' = [slot EXCEPT ![t] = s] /\ old' = [old EXCEPT ![t] = b] /\ UNCHANGED idx
     ELSE \E s \in S : slot' = [slot EXCEPT ![t] = s] /\ old' = [old EXCEPT ![t] = idx[c][s]] /\ idx' = [idx EXCEPT ![c][s] = b]
  /\ UNCHANGED <<sm, mem, dir, mx, ml, blk, ent, left, reg>>
GetSm(t) ==
  LET c == Ca(t) s == slot[t] IN
  /\ pc[t] = "sm" /\ sm[c][s] = <<>> /\ sm' = [sm EXCEPT ![c][s] = t] /\ cm' = [cm EXCEPT ![c] = <<>>]
  /\ Go(t, IF old[t] = blk[t] THEN "use" ELSE IF old[t] >= 0 THEN "dlock" ELSE "numa")
  /\ UNCHANGED <<idx, mem, dir, mx, ml, blk, slot, old, ent, left, reg>>
\* the process's MPI lock (if there is one), then the block's mutex
MLock(t, from, to) ==
  /\ pc[t] = from /\ Go(t, to) /\ IF SERIAL THEN ml[Pr(t)] = <<>> /\ ml' = [ml EXCEPT ![Pr(t)] = t] ELSE UNCHANGED ml
  /\ UNCHANGED <<idx, cm, sm, mem, dir, mx, blk, slot, old, ent, left, reg>>
MUnlock(t) == ml' = IF SERIAL THEN [ml EXCEPT ![Pr(t)] = <<>>] ELSE ml
Acquire(t, from, to, b) ==
  /\ pc[t] = from /\ b \in B /\ mx[b] = <<>> /\ mx' = [mx EXCEPT ![b] = t] /\ Go(t, to)
  /\ UNCHANGED <<idx, cm, sm, mem, dir, ml, blk, slot, old, ent, left, reg>>
Delete(t) ==
  /\ pc[t] = "del" /\ dir' = [dir EXCEPT ![old[t]] = Without(@, Me(t))] /\ mx' = [mx EXCEPT ![old[t]] = <<>>] /\ MUnlock(t)
  /\ mem' = [mem EXCEPT ![Ca(t)][slot[t]] = -2] /\ Go(t, "numa")
  /\ UNCHANGED <<idx, cm, sm, blk, slot, old, ent, left, reg>>
Others(t) == {c \in C : c[1] = Pr(t) /\ c # Ca(t)}
CanTry(t, c) == cm[c] = <<>> /\ \E s \in S : idx[c][s] = blk[t] /\ sm[c][s] = <<>>
Numa(t) ==
  /\ pc[t] = "numa"
  /\ IF \E c \in Others(t) : CanTry(t, c)
     THEN \E c \in Others(t), s \in S :
            /\ CanTry(t, c) /\ idx[c][s] = blk[t] /\ sm' = [sm EXCEPT ![c][s] = t] /\ ent' = [ent EXCEPT ![t] = <<c, s>>] /\ Go(t, "ncopy")
     ELSE Go(t, "slock") /\ UNCHANGED <<sm, ent>>
  /\ UNCHANGED <<idx, cm, mem, dir, mx, ml, blk, slot, old, left, reg>>
Stored(e) == mem[e[1]][e[2]]
NCopy(t) ==
  LET e == ent[t] IN
  /\ pc[t] = "ncopy" /\ Assert(Stored(e) = blk[t], "copied another block (domain)")
  /\ mem' = [mem EXCEPT ![Ca(t)][slot[t]] = Stored(e)] /\ sm' = [sm EXCEPT ![e[1]][e[2]] = <<>>] /\ Go(t, "alock")
  /\ UNCHANGED <<idx, cm, dir, mx, ml, blk, slot, old, ent, left, reg>>
\* announce without transfer
Add(t) ==
  LET b == blk[t] IN
  /\ pc[t] = "add" /\ dir' = [dir EXCEPT ![b] = Cut(<<Me(t)>> \o @)] /\ reg' = [reg EXCEPT ![b] = <<Me(t)>> \o @] /\ Go(t, "end")
  /\ UNCHANGED <<idx, cm, sm, mem, mx, ml, blk, slot, old, ent, left>>
\* look up, announce, keep the mutex until the block is there
Lookup(t) ==
  LET b == blk[t] IN
  /\ pc[t] = "look"
  /\ \E e \in (IF dir[b] = <<>> THEN {No} ELSE {dir[b][i] : i \in 1..Len(dir[b])}) : ent' = [ent EXCEPT ![t] = e] /\ Go(t, IF e = No THEN "load" ELSE "copy1")
  /\ dir' = [dir EXCEPT ![b] = Cut(<<Me(t)>> \o @)] /\ reg' = [reg EXCEPT ![b] = <<Me(t)>> \o @]
  /\ UNCHANGED <<idx, cm, sm, mem, mx, ml, blk, slot, old, left>>
Load(t) ==
  /\ pc[t] = "load" /\ Go(t, "end") /\ mem' = [mem EXCEPT ![Ca(t)][slot[t]] = blk[t]]
  /\ Assert(OPSEQ => \A c \in Others(t), s \in S : idx[c][s] # blk[t], "file read although a domain of the process has the block")
  /\ UNCHANGED <<idx, cm, sm, dir, mx, ml, blk, slot, old, ent, left, reg>>
Copy(t, from, to) ==
  /\ pc[t] = from /\ Assert(Stored(ent[t]) = blk[t], "copied another block (process)") /\ Go(t, to)
  /\ mem' = [mem EXCEPT ![Ca(t)][slot[t]] = IF to = "end" THEN blk[t] ELSE -2]
  /\ UNCHANGED <<idx, cm, sm, dir, mx, ml, blk, slot, old, ent, left, reg>>
End(t) ==
  /\ pc[t] = "end" /\ mx' = [mx EXCEPT ![blk[t]] = <<>>] /\ MUnlock(t) /\ Go(t, "use")
  /\ UNCHANGED <<idx, cm, sm, mem, dir, blk, slot, old, ent, left, reg>>
Use(t) ==
  /\ pc[t] = "use" /\ Assert(mem[Ca(t)][slot[t]] = blk[t], "read from another block")
  /\ sm' = [sm EXCEPT ![Ca(t)][slot[t]] = <<>>] /\ Go(t, "idle")
  /\ ent' = [ent EXCEPT ![t] = No] /\ old' = [old EXCEPT ![t] = -1] /\ blk' = [blk EXCEPT ![t] = -1] /\ slot' = [slot EXCEPT ![t] = 0]
  /\ UNCHANGED <<idx, cm, mem, dir, mx, ml, left, reg>>
Done == Idle /\ \A t \in T : left[t] = 0
Step(t) == \/ \E b \in B : Start(t, b)
           \/ GetCm(t) \/ GetSm(t) \/ MLock(t, "dlock", "dacq") \/ Acquire(t, "dacq", "del", old[t]) \/ Delete(t)
           \/ Numa(t) \/ NCopy(t) \/ MLock(t, "alock", "aacq") \/ Acquire(t, "aacq", "add", blk[t]) \/ Add(t)
           \/ MLock(t, "slock", "sacq") \/ Acquire(t, "sacq", "look", blk[t]) \/ Lookup(t) \/ Load(t)
           \/ Copy(t, "copy1", "copy2") \/ Copy(t, "copy2", "end") \/ End(t) \/ Use(t)
Next == (\E t \in T : Step(t)) \/ (Done /\ UNCHANGED vars)
\* registrations of b after the last one of h
After(b, h) == LET n == {i \in 1..Len(reg[b]) : reg[b][i] = h} IN IF n = {} THEN 0 ELSE (CHOOSE i \in n : \A j \in n : i <= j) - 1
Directory ==
  Idle => \A b \in B :
    /\ \A i \in 1..Len(dir[b]) : idx[dir[b][i][1]][dir[b][i][2]] = b
    /\ \A i, j \in 1..Len(dir[b]) : i # j => dir[b][i] # dir[b][j]
    /\ \A c \in C, s \in S : idx[c][s] = b => mem[c][s] = b /\ ((\E i \in 1..Len(dir[b]) : dir[b][i] = <<c, s>>) \/ After(b, <<c, s>>) >= DIR)
\* without this, one slot would be listed for two blocks
OneBlock == \A a, b \in B : a # b => \A i \in 1..Len(dir[a]), j \in 1..Len(dir[b]) : dir[a][i] # dir[b][j]
=============================================================================
