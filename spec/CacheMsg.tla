------------------------------ MODULE CacheMsg ------------------------------
(***************************************************************************)
(* CACHE grids distributed with communication threads, at the grain of the *)
(* protocol: messages (lookup, copy request, registered, replaced) travel  *)
(* to the communication thread of the block's home or of the holder, in    *)
(* order between two processes; replies wait for the requesting thread,    *)
(* the communication thread waits until its reply is taken.  A holder only *)
(* answers with a block it can lock at once, otherwise the requester asks  *)
(* the directory again (TRIES times, then it reads the file).              *)
(* SYNC: a sender waits until the communication thread takes the message.  *)
(* Checked: what is read or copied is always the block asked for, nothing  *)
(* gets stuck, and whenever nothing is going on the directory lists        *)
(* exactly the (DIR newest) holders.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS PROCS, DOMS, THR, SLOTS, BLOCKS, DIR, OPS, TRIES, SYNC, OPSEQ
P == 1..PROCS
C == P \X (1..DOMS)
T == C \X (1..THR)
S == 1..SLOTS
B == 0..BLOCKS-1
Ca(t) == t[1]
Pr(t) == t[1][1]
Home(b) == (b % PROCS) + 1
No == <<<<0, 0>>, 0>>
NoT == <<No[1], 0>>
VARIABLES idx, cm, sm, mem, dir, box, comm, inf, blm, pc, then, blk, slot, old, ent, tries, left, reg
\* box[p][q]: messages from p to q's communication thread; comm[p]: what p's communication thread does
\* inf, blm: per process, the thread whose lookup / copy request is under way; then: where a thread goes on after sending
vars == <<idx, cm, sm, mem, dir, box, comm, inf, blm, pc, then, blk, slot, old, ent, tries, left, reg>>
Ready == [k |-> "recv"]
Init == /\ idx = [c \in C |-> [s \in S |-> -1]] /\ cm = [c \in C |-> NoT] /\ sm = [c \in C |-> [s \in S |-> NoT]]
        /\ mem = [c \in C |-> [s \in S |-> -1]] /\ dir = [b \in B |-> <<>>] /\ box = [p \in P |-> [q \in P |-> <<>>]]
        /\ comm = [p \in P |-> Ready] /\ inf = [p \in P |-> NoT] /\ blm = [p \in P |-> NoT]
        /\ pc = [t \in T |-> "idle"] /\ then = [t \in T |-> ""] /\ blk = [t \in T |-> -1] /\ slot = [t \in T |-> 0] /\ old = [t \in T |-> -1]
        /\ ent = [t \in T |-> No] /\ tries = [t \in T |-> 0] /\ left = [t \in T |-> OPS] /\ reg = [b \in B |-> <<>>]
Cut(l) == IF Len(l) > DIR THEN SubSeq(l, 1, DIR) ELSE l
Without(l, h) == SelectSeq(l, LAMBDA x : x # h)
Me(t) == <<Ca(t), slot[t]>>
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
\* send a message and go on with x (after it was taken if SYNC)
Send(t, q, m, x) ==
  /\ box' = [box EXCEPT ![Pr(t)][q] = Append(@, [m EXCEPT !.t = t])]
  /\ then' = [then EXCEPT ![t] = x]
  /\ Go(t, IF SYNC THEN "sent" ELSE x)
Msg(k, b, h) == [k |-> k, b |-> b, h |-> h, t |-> NoT]
Quiet == /\ \A t \in T : pc[t] = "idle"
         /\ \A p \in P : comm[p] = Ready /\ \A q \in P : box[p][q] = <<>>
Start(t, b) ==
  /\ pc[t] = "idle" /\ left[t] > 0 /\ (OPSEQ => Quiet)
  /\ left' = [left EXCEPT ![t] = @ - 1] /\ blk' = [blk EXCEPT ![t] = b] /\ Go(t, "cm")
  /\ UNCHANGED <<idx, cm, sm, mem, dir, box, comm, inf, blm, then, slot, old, ent, tries, reg>>
GetCm(t) ==
  LET c == Ca(t) b == blk[t] IN
  /\ pc[t] = "cm" /\ cm[c] = NoT /\ cm' = [cm EXCEPT ![c] = t] /\ Go(t, "sm")
  /\ IF \E s \in S : idx[c][s] = b
     THEN \E s \in S : idx[c][s] = b /\ slot' = [slot EXCEPT ![t] = s] /\ old' = [old EXCEPT ![t] = b] /\ UNCHANGED idx
     ELSE \E s \in S : slot' = [slot EXCEPT ![t] = s] /\ old' = [old EXCEPT ![t] = idx[c][s]] /\ idx' = [idx EXCEPT ![c][s] = b]
  /\ UNCHANGED <<sm, mem, dir, box, comm, inf, blm, then, blk, ent, tries, left, reg>>
GetSm(t) ==
  LET c == Ca(t) s == slot[t] IN
  /\ pc[t] = "sm" /\ sm[c][s] = NoT /\ sm' = [sm EXCEPT ![c][s] = t] /\ cm' = [cm EXCEPT ![c] = NoT]
  /\ Go(t, IF old[t] = blk[t] THEN "use" ELSE IF old[t] >= 0 THEN "del" ELSE "numa")
  /\ UNCHANGED <<idx, mem, dir, box, comm, inf, blm, then, blk, slot, old, ent, tries, left, reg>>
Delete(t) ==
  /\ pc[t] = "del" /\ mem' = [mem EXCEPT ![Ca(t)][slot[t]] = -2]
  /\ IF Home(old[t]) = Pr(t) THEN dir' = [dir EXCEPT ![old[t]] = Without(@, Me(t))] /\ Go(t, "numa") /\ UNCHANGED <<box, then>>
     ELSE Send(t, Home(old[t]), Msg("gone", old[t], Me(t)), "numa") /\ UNCHANGED dir
  /\ UNCHANGED <<idx, cm, sm, comm, inf, blm, blk, slot, old, ent, tries, left, reg>>
CanTry(c, b) == cm[c] = NoT /\ \E s \in S : idx[c][s] = b /\ sm[c][s] = NoT
Others(t) == {c \in C : c[1] = Pr(t) /\ c # Ca(t)}
Stored(e) == mem[e[1]][e[2]]
Numa(t) ==
  /\ pc[t] = "numa"
  /\ IF \E c \in Others(t) : CanTry(c, blk[t])
     THEN \E c \in Others(t), s \in S :
            /\ CanTry(c, blk[t]) /\ idx[c][s] = blk[t] /\ sm' = [sm EXCEPT ![c][s] = t] /\ ent' = [ent EXCEPT ![t] = <<c, s>>] /\ Go(t, "ncopy")
     ELSE Go(t, "look") /\ UNCHANGED <<sm, ent>>
  /\ UNCHANGED <<idx, cm, mem, dir, box, comm, inf, blm, then, blk, slot, old, tries, left, reg>>
NCopy(t) ==
  LET e == ent[t] IN
  /\ pc[t] = "ncopy" /\ Assert(Stored(e) = blk[t], "copied another block (domain)")
  /\ mem' = [mem EXCEPT ![Ca(t)][slot[t]] = Stored(e)] /\ sm' = [sm EXCEPT ![e[1]][e[2]] = NoT] /\ Go(t, "add")
  /\ UNCHANGED <<idx, cm, dir, box, comm, inf, blm, then, blk, slot, old, ent, tries, left, reg>>
\* what the directory may answer
Listed(b) == IF dir[b] = <<>> THEN {No} ELSE {dir[b][i] : i \in 1..Len(dir[b])}
Look(t) ==
  LET b == blk[t] IN
  /\ pc[t] = "look"
  /\ IF Home(b) = Pr(t)
     THEN \E e \in Listed(b) : ent' = [ent EXCEPT ![t] = e] /\ Go(t, IF e = No THEN "load" ELSE "ask") /\ UNCHANGED <<box, then, inf>>
     ELSE /\ inf[Pr(t)] = NoT /\ inf' = [inf EXCEPT ![Pr(t)] = t] /\ Send(t, Home(b), Msg("look", b, No), "looking") /\ UNCHANGED ent
  /\ UNCHANGED <<idx, cm, sm, mem, dir, comm, blm, blk, slot, old, tries, left, reg>>
\* the reply to a lookup is taken
Looked(t) ==
  LET q == Home(blk[t]) IN
  /\ pc[t] = "looking" /\ comm[q].k = "entry" /\ comm[q].t = Pr(t)
  /\ ent' = [ent EXCEPT ![t] = comm[q].e] /\ Go(t, IF comm[q].e = No THEN "load" ELSE "ask")
  /\ comm' = [comm EXCEPT ![q] = Ready] /\ inf' = [inf EXCEPT ![Pr(t)] = NoT]
  /\ UNCHANGED <<idx, cm, sm, mem, dir, box, blm, then, blk, slot, old, tries, left, reg>>
Ask(t) ==
  LET q == ent[t][1][1] IN
  /\ pc[t] = "ask" /\ blm[Pr(t)] = NoT /\ blm' = [blm EXCEPT ![Pr(t)] = t] /\ Send(t, q, Msg("copy", blk[t], No), "asking")
  /\ UNCHANGED <<idx, cm, sm, mem, dir, comm, inf, blk, slot, old, ent, tries, left, reg>>
Asked(t) ==
  LET q == ent[t][1][1] IN
  /\ pc[t] = "asking" /\ comm[q].k \in {"data", "fail"} /\ comm[q].t = Pr(t)
  /\ blm' = [blm EXCEPT ![Pr(t)] = NoT] /\ comm' = [comm EXCEPT ![q] = Ready]
  /\ IF comm[q].k = "data"
     THEN /\ Assert(Stored(comm[q].e) = blk[t], "copied another block (process)")
          /\ mem' = [mem EXCEPT ![Ca(t)][slot[t]] = Stored(comm[q].e)] /\ sm' = [sm EXCEPT ![comm[q].e[1]][comm[q].e[2]] = NoT]
          /\ Go(t, "add") /\ UNCHANGED tries
     ELSE /\ tries' = [tries EXCEPT ![t] = @ + 1] /\ Go(t, IF tries[t] + 1 < TRIES THEN "look" ELSE "load") /\ UNCHANGED <<mem, sm>>
  /\ UNCHANGED <<idx, cm, dir, box, inf, then, blk, slot, old, ent, left, reg>>
Load(t) ==
  /\ pc[t] = "load" /\ mem' = [mem EXCEPT ![Ca(t)][slot[t]] = blk[t]] /\ Go(t, "add")
  /\ Assert(OPSEQ => \A c \in Others(t), s \in S : idx[c][s] # blk[t], "file read although a domain of the process has the block")
  /\ Assert(OPSEQ => \A i \in 1..Len(dir[blk[t]]) : dir[blk[t]][i][1][1] = Pr(t), "file read although a listed cache has the block")
  /\ UNCHANGED <<idx, cm, sm, dir, box, comm, inf, blm, then, blk, slot, old, ent, tries, left, reg>>
Add(t) ==
  LET b == blk[t] IN
  /\ pc[t] = "add"
  /\ IF Home(b) = Pr(t) THEN dir' = [dir EXCEPT ![b] = Cut(<<Me(t)>> \o @)] /\ reg' = [reg EXCEPT ![b] = <<Me(t)>> \o @] /\ Go(t, "use") /\ UNCHANGED <<box, then>>
     ELSE Send(t, Home(b), Msg("have", b, Me(t)), "use") /\ UNCHANGED <<dir, reg>>
  /\ UNCHANGED <<idx, cm, sm, mem, comm, inf, blm, blk, slot, old, ent, tries, left>>
Use(t) ==
  /\ pc[t] = "use" /\ Assert(mem[Ca(t)][slot[t]] = blk[t], "read from another block")
  /\ sm' = [sm EXCEPT ![Ca(t)][slot[t]] = NoT] /\ Go(t, "idle")
  /\ ent' = [ent EXCEPT ![t] = No] /\ old' = [old EXCEPT ![t] = -1] /\ blk' = [blk EXCEPT ![t] = -1] /\ slot' = [slot EXCEPT ![t] = 0]
  /\ tries' = [tries EXCEPT ![t] = 0] /\ then' = [then EXCEPT ![t] = ""]
  /\ UNCHANGED <<idx, cm, mem, dir, box, comm, inf, blm, left, reg>>
\* the communication thread of q takes a message of p
Reply(k, p, e) == [k |-> k, t |-> p, e |-> e]
Recv(q, p) ==
  /\ comm[q] = Ready /\ box[p][q] # <<>>
  /\ LET m == Head(box[p][q]) IN
     /\ box' = [box EXCEPT ![p][q] = Tail(@)]
     /\ pc' = IF SYNC THEN [pc EXCEPT ![m.t] = then[m.t]] ELSE pc
     /\ CASE m.k = "have" -> /\ dir' = [dir EXCEPT ![m.b] = Cut(<<m.h>> \o @)] /\ reg' = [reg EXCEPT ![m.b] = <<m.h>> \o @]
                             /\ UNCHANGED <<comm, sm>>
          [] m.k = "gone" -> dir' = [dir EXCEPT ![m.b] = Without(@, m.h)] /\ UNCHANGED <<reg, comm, sm>>
          [] m.k = "look" -> (\E e \in Listed(m.b) : comm' = [comm EXCEPT ![q] = Reply("entry", p, e)]) /\ UNCHANGED <<dir, reg, sm>>
          [] m.k = "copy" ->
               /\ IF \E d \in 1..DOMS : CanTry(<<q, d>>, m.b)
                  THEN \E d \in 1..DOMS, s \in S :
                         /\ CanTry(<<q, d>>, m.b) /\ idx[<<q, d>>][s] = m.b
                         /\ sm' = [sm EXCEPT ![<<q, d>>][s] = <<<<q, 0>>, 0>>] /\ comm' = [comm EXCEPT ![q] = Reply("data", p, <<<<q, d>>, s>>)]
                  ELSE comm' = [comm EXCEPT ![q] = Reply("fail", p, No)] /\ UNCHANGED sm
               /\ UNCHANGED <<dir, reg>>
  /\ UNCHANGED <<idx, cm, mem, inf, blm, then, blk, slot, old, ent, tries, left>>
Done == Quiet /\ \A t \in T : left[t] = 0
Step(t) == \/ \E b \in B : Start(t, b)
           \/ GetCm(t) \/ GetSm(t) \/ Delete(t) \/ Numa(t) \/ NCopy(t) \/ Look(t) \/ Looked(t) \/ Ask(t) \/ Asked(t) \/ Load(t) \/ Add(t) \/ Use(t)
Next == (\E t \in T : Step(t)) \/ (\E p, q \in P : Recv(q, p)) \/ (Done /\ UNCHANGED vars)
After(b, h) == LET n == {i \in 1..Len(reg[b]) : reg[b][i] = h} IN IF n = {} THEN 0 ELSE (CHOOSE i \in n : \A j \in n : i <= j) - 1
Directory ==
  Quiet => \A b \in B :
    /\ \A i \in 1..Len(dir[b]) : idx[dir[b][i][1]][dir[b][i][2]] = b
    /\ \A i, j \in 1..Len(dir[b]) : i # j => dir[b][i] # dir[b][j]
    /\ \A c \in C, s \in S : idx[c][s] = b => mem[c][s] = b /\ ((\E i \in 1..Len(dir[b]) : dir[b][i] = <<c, s>>) \/ After(b, <<c, s>>) >= DIR)
=============================================================================
