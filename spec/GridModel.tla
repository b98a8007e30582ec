----------------------------- MODULE GridModel -----------------------------
(***************************************************************************)
(* Grid.tla explored exhaustively: one grid on R processes with T threads  *)
(* each (thread t on NUMA node t % D), one variable of N cells in blocks   *)
(* of one cell.  The properties are stated on the observable state; they   *)
(* are what the recorded runs inherit when they are accepted by GridTrace. *)
(***************************************************************************)
EXTENDS Grid
CONSTANTS R, T, D, N, CS, SPREAD, TYPE, MPI, NUMA, SEQ, MISSING, PRED
VARIABLES s, last      \* last: what the previous step was
vars == <<s, last>>

v0 == [t |-> "int", K |-> 1, base2 |-> 10, size |-> <<N>>, off |-> <<0>>, d |-> <<1024>>, mod |-> 0]
h == [R |-> R, files |-> [f |-> [z |-> v0]], nodes |-> [r \in 1..R |-> [t \in 1..T |-> (t - 1) % D]],
      colors |-> [r \in 1..R |-> 0], pn |-> [r \in 1..R |-> 0], scale |-> 1024, seq |-> SEQ, nclog |-> TRUE, cnt |-> TRUE, pred |-> PRED,
      nompi |-> FALSE, nonuma |-> FALSE, tsmpi |-> FALSE, dbgnuma |-> FALSE, maxdim |-> 4]
File == IF MISSING THEN "missing" ELSE "f"

\* applying a deterministic operation
App(S) == CHOOSE x \in S : TRUE
RECURSIVE Setup(_, _)
Setup(x, r) ==
  IF r = R THEN x
  ELSE LET a == App(Create(h, x, r, 0, "int", -1))
           b == App(SetThreads(h, a, r, 0, T))
           c == App(SetComm(h, b, r, 0, "world", 0))
           e == App(Param(h, c, r, 0, "grid", TYPE, 0))
           f == App(Param(h, e, r, 0, "mpi-communication", MPI, 0))
           g == App(Param(h, f, r, 0, "NUMA_COMMUNICATION", NUMA, 0))
           i == App(Param(h, g, r, 0, "BLOCK_SIZE_0", "1", 0))
           j == App(Param(h, i, r, 0, "CACHE_SIZE", CS, 0))
           k == App(Param(h, j, r, 0, "CACHE_HAND_SPREAD", SPREAD, 0))
       IN Setup([k EXCEPT !.comm = Ranks(h)], r + 1)
Init == s = Setup(Init0(h), 0) /\ last = [e |-> "init"]

Rk == 0..R-1
Th == 0..T-1
DoOpenBegin(r, t) == s' \in OpenBegin(h, s, r, t, 0, File, 0, t) /\ last' = [e |-> "openb", r |-> r, t |-> t]
DoOpen(r, t) == \E c \in {0, 3, 6, 8, 9, 10, 11, 12} : s' \in Open(h, s, r, t, 0, 0, c) /\ last' = [e |-> "open", r |-> r, t |-> t, code |-> c]
DoLoad(r, t, b) == TYPE = "FULL" /\ s' \in Read(h, s, r, t, "z", <<b>>, <<1>>) /\ last' = [e |-> "load", r |-> r, t |-> t, b |-> b]
\* a read by the user, together with the access to the file it needs, if any
DoGet(r, t, b) ==
  /\ Usable(s, r, t, 0, 0)
  /\ \E rd \in BOOLEAN : \E x \in IF rd THEN (IF TYPE = "FULL" THEN {} ELSE Read(h, s, r, t, "z", <<b>>, <<1>>)) ELSE {s} :
       /\ s' \in GetVal(h, x, r, t, 0, 0, "int", <<b * 1024 + 100>>, FileCell(v0, b))
       /\ last' = [e |-> "get", r |-> r, t |-> t, b |-> b, rd |-> rd]
DoClose(r) ==
  /\ \A t \in Th : Has(G(s, r, 0).lv, 0) => t \in G(s, r, 0).lv[0].open
  /\ \/ s' \in CloseBegin(h, s, r, 0) /\ last' = [e |-> "closeb", r |-> r]
     \/ s' \in Close(h, s, r, 0) /\ last' = [e |-> "close", r |-> r]
Next ==
  \E r \in Rk :
    \/ Live(s, r, 0) /\ DoClose(r)
    \/ \E t \in Th : DoOpenBegin(r, t) \/ DoOpen(r, t) \/ \E b \in 0..N-1 : DoLoad(r, t, b) \/ DoGet(r, t, b)
Spec == Init /\ [][Next]_vars

View == <<[s EXCEPT !.cnt = <<>>]>>

IsOpen(r, t) == Live(s, r, 0) /\ Has(G(s, r, 0).lv, 0) /\ t \in G(s, r, 0).lv[0].open
Shared == {s.sh[k] : k \in DOMAIN s.sh}
\* no open returns before all threads of the process called it, and all get the same code
OpenCollective == \A r \in Rk : Live(s, r, 0) /\ Has(G(s, r, 0).lv, 0) =>
                    LET lv == G(s, r, 0).lv[0] IN (lv.open # {} => lv.openb = Th) /\ (MISSING => lv.code = 8)
\* a FULL grid of one process is completely loaded when its open returned
LoadedBeforeUse == TYPE = "FULL" /\ ~MISSING =>
                     \A r \in Rk, t \in Th : IsOpen(r, t) => \A sh \in {s.sh[k] : k \in {k \in DOMAIN s.sh : r \in k[1]}} : Cardinality(DOMAIN sh.loaded) = N
\* ... evenly
Even == TYPE = "FULL" => \A k \in DOMAIN s.sh : \A o \in Rk \X (0..D-1) :
          BlocksOf(s.sh[k].loaded, o) <= CeilDiv(N, Cardinality(k[1]) * (IF NUMA = "OFF" THEN 1 ELSE D))
\* caches never hold a block twice; the hands keep their distance
CacheSane == \A sh \in Shared : \A o \in DOMAIN sh.caches :
               LET c == sh.caches[o] IN
               /\ \A i, j \in 0..c.n-1 : i # j /\ c.slot[i] # -1 => c.slot[i] # c.slot[j]
               /\ (c.clear - c.next) % c.n = (NewCache(c.n, Num(SPREAD)).clear + 1) % c.n
\* in a quiescent system the directory lists holders only, without repetition, at most four
DirSane == SEQ => \A sh \in Shared : \A b \in DOMAIN sh.dir :
             /\ Len(sh.dir[b]) <= 4
             /\ \A i, j \in 1..Len(sh.dir[b]) : i # j => sh.dir[b][i] # sh.dir[b][j]
             /\ \A i \in 1..Len(sh.dir[b]) : LET x == sh.dir[b][i] IN
                  Has(sh.caches, <<x[1], x[2]>>) /\ sh.caches[<<x[1], x[2]>>].slot[x[3]] = b
\* a holder is unlisted only if four newer ones are
DirComplete == SEQ /\ TYPE = "CACHE" /\ MPI # "OFF" /\ R > 1 => \A sh \in Shared : \A o \in DOMAIN sh.caches : \A k \in 0..sh.caches[o].n-1 :
                 LET b == sh.caches[o].slot[k] IN
                 b # -1 => \/ \E i \in 1..Len(DirOf(sh, b)) : DirOf(sh, b)[i] = <<o[1], o[2], k>>
                           \/ Cardinality({p \in DOMAIN sh.caches : Holds(sh.caches[p], b)}) > 4
\* the file is accessed only for blocks that nobody cooperating holds; counters add up
Holders(sh, r, b) == {o \in DOMAIN sh.caches : Holds(sh.caches[o], b)}
StepOK ==
  last'.e = "get" =>
    LET r == last'.r  t == last'.t  b == last'.b
        k == CHOOSE k \in DOMAIN s.sh : r \in k[1]
        sh == s.sh[k]
        c == s.cnt[<<r, 0, 0>>]
        e == s'.cnt[<<r, 0, 0>>]
        me == <<r, Dom(h, G(s, r, 0), r, t)>>
    IN /\ e.acc = c.acc + 1
       /\ SEQ => (e.numa + e.mpi + e.file) - (c.numa + c.mpi + c.file) \in {0, 1}
       /\ SEQ /\ TYPE = "CACHE" =>
            /\ last'.rd <=> e.file > c.file
            /\ last'.rd /\ MPI # "OFF" /\ NUMA # "OFF" => Holders(sh, r, b) = {}
            /\ Has(sh.caches, me) /\ Holds(sh.caches[me], b) => e.numa + e.mpi + e.file = c.numa + c.mpi + c.file
            /\ e.numa > c.numa => \E o \in Holders(sh, r, b) : o[1] = r /\ o # me
            /\ MPI = "OFF" => e.mpi = c.mpi
            /\ NUMA = "OFF" => e.numa = c.numa
       /\ PRED /\ TYPE = "CACHE" => (last'.rd => e.miss > c.miss) /\ ~(Has(sh.caches, me) /\ Holds(sh.caches[me], b) /\ last'.rd)
       /\ SEQ /\ TYPE = "FULL" => ~last'.rd /\ e.file = c.file
       /\ TYPE = "PASS_THROUGH" => last'.rd
Steps == [][StepOK]_vars
=============================================================================
