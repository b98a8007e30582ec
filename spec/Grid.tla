------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* ASAGI seen through its interface: grids of R processes with T threads   *)
(* each, their parameters, collective opens, reads, counters, errors and   *)
(* closes, together with the accesses to the file that must, may or must   *)
(* not happen.                                                             *)
(*                                                                         *)
(* The system is a record s (see Init0).  Every operation is an operator   *)
(* returning the SET of possible next states, {} if the operation with     *)
(* this outcome is impossible.  GridModel explores them with TLC for small *)
(* constants, GridTrace replays recorded runs of the implementation.       *)
(* h describes the run: number of processes, files, build options, ...     *)
(* Values are doubled throughout (they are multiples of 1/2).              *)
(***************************************************************************)
EXTENDS Geometry, Params, Clock, TLC

LOCAL Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Has(f, k) == k \in DOMAIN f
Zero == [acc |-> 0, numa |-> 0, mpi |-> 0, file |-> 0, miss |-> 0]      \* miss: predicted in concurrent histories

Init0(h) ==
  [ grids |-> <<>>,       \* <<rank, grid>> -> grid record
    fib   |-> <<>>,       \* <<rank, simulated thread>> -> team thread
    sh    |-> <<>>,       \* <<group, grid, level>> -> what the cooperating processes share
    cnt   |-> <<>>,       \* <<rank, grid, level>> -> counters
    pend  |-> <<>>,       \* <<rank, team thread>> -> file accesses of the read in progress
    base  |-> <<>>,       \* rank -> resources in use before the first grid
    comm  |-> {},         \* ranks with a running communication thread
    ncfail |-> [r \in 0..h.R-1 |-> 0],
    mpifail |-> [r \in 0..h.R-1 |-> 0] ]

Ranks(h) == 0..h.R-1
G(s, r, g) == s.grids[<<r, g>>]
Live(s, r, g) == Has(s.grids, <<r, g>>)
NewGrid(r, kind, hnd) ==
  [kind |-> kind, h |-> hnd, thr |-> 1, comm |-> {r}, ps |-> NoParams, cfg |-> [set |-> FALSE],
   lv |-> <<>>, closing |-> FALSE, esize |-> 0]
IsArr(k) == Len(k) > 4 /\ SubSeq(k, 1, 4) = "arr_"
IsStruct(k) == k \in {"struct", "structb", "structw"}
IsScalar(k) == ~IsArr(k) /\ ~IsStruct(k)
Elem(k) == IF IsArr(k) THEN SubSeq(k, 5, Len(k)) ELSE k
SizeOf == [byte |-> 1, int |-> 4, long |-> 8, float |-> 4, double |-> 8]

\* ---------------------------------------------------------------- creation and configuration
Create(h, s, r, g, kind, hnd) ==
  IF Live(s, r, g) \/ (hnd >= 0 /\ \E k \in DOMAIN s.grids : k[1] = r /\ s.grids[k].h = hnd) THEN {}
  ELSE {[s EXCEPT !.grids = (<<r, g>> :> NewGrid(r, kind, hnd)) @@ @]}
SetThreads(h, s, r, g, n) ==
  IF ~Live(s, r, g) THEN {} ELSE {[s EXCEPT !.grids[<<r, g>>].thr = n]}
GroupOf(h, r, c) ==
  IF c = "world" THEN Ranks(h) ELSE IF c = "self" THEN {r} ELSE {q \in Ranks(h) : h.colors[q+1] = h.colors[r+1]}
\* MPI calls of process r may fail from now on (n > 0) or work again (n = 0)
MpiMayFail(h, s, r, n) == {[s EXCEPT !.mpifail[r] = IF n = 0 THEN 0 ELSE 1]}
\* such a call failed; whoever depends on it has to report an MPI error
MpiFailed(h, s, r) == IF s.mpifail[r] = 0 THEN {} ELSE {[s EXCEPT !.mpifail[r] = 2]}
\* the file could not be opened in one NUMA domain of process r
NcFailed(h, s, r) == {[s EXCEPT !.ncfail[r] = 2]}
\* code -1: the interface does not return the error
SetComm(h, s, r, g, c, code) ==
  IF ~Live(s, r, g) THEN {}
  ELSE IF s.mpifail[r] = 2 THEN IF code \in {1, -1} THEN {[s EXCEPT !.grids[<<r, g>>].comm = {r}]} ELSE {}
  ELSE IF code \in {0, -1} THEN {[s EXCEPT !.grids[<<r, g>>].comm = GroupOf(h, r, c)]} ELSE {}
Param(h, s, r, g, n, v, l) ==
  IF ~Live(s, r, g) THEN {} ELSE {[s EXCEPT !.grids[<<r, g>>].ps = SetParam(@, n, v, l)]}

\* ---------------------------------------------------------------- what a grid is, once opened
\* MPI communication in effect
MpiMode(h, gr) ==
  LET m == Get(gr.ps, "MPI_COMMUNICATION", "WINDOW", 0) IN
  IF h.nompi \/ Cardinality(gr.comm) = 1 \/ m = "OFF" THEN "OFF"
  ELSE IF m = "THREAD" /\ ~h.tsmpi THEN "THREAD" ELSE "WINDOW"
\* nodes of the process's threads as far as the grid distinguishes them
Dom(h, gr, r, t) ==
  IF NumaOff(gr.ps) THEN 0 ELSE IF h.dbgnuma THEN t ELSE IF h.nonuma THEN 0 ELSE h.nodes[r+1][t+1]
Doms(h, gr, r) == {Dom(h, gr, r, t) : t \in 0..gr.thr-1}
NumaMode(h, gr, r) ==
  LET n == Get(gr.ps, "NUMA_COMMUNICATION", IF h.nonuma THEN "OFF" ELSE "ON", 0) IN
  IF n = "OFF" \/ Cardinality(Doms(h, gr, r)) = 1 THEN "OFF" ELSE IF n = "CACHE" THEN "CACHE" ELSE "ON"
Config(h, gr, r) ==
  LET m == MpiMode(h, gr) IN
  [set |-> TRUE, type |-> GridType(gr.ps), mpi |-> m, numa |-> NumaMode(h, gr, r),
   group |-> IF m = "OFF" THEN {r} ELSE gr.comm, doms |-> Doms(h, gr, r),
   vp |-> ValuePos(gr.ps), time |-> GetNum(gr.ps, "TIME_DIMENSION", -1, 0)]

\* ---------------------------------------------------------------- opening
VarName(gr, l) == Get(gr.ps, "VARIABLE", "z", l)
VarRec(h, f, v) == h.files[f][v]
FileElemSize(v) ==
  CASE v.t = "struct" -> 8 [] v.t \in {"structb", "structw"} -> 24 [] OTHER -> v.K * SizeOf[v.t]
GridElemSize(gr, v) == IF IsScalar(gr.kind) THEN SizeOf[gr.kind] ELSE FileElemSize(v)
\* the error code of an open; esize: element size fixed by levels opened before (0: none)
OpenCode(h, s, r, g, f, l) ==
  LET gr == G(s, r, g)
      vn == VarName(gr, l)
  IN IF \E t \in 0..gr.thr-1 : ~h.nonuma /\ ~h.dbgnuma /\ h.nodes[r+1][t+1] = -1 THEN 3
     ELSE IF \E t \in 0..gr.thr-1 : h.nodes[r+1][t+1] = -2 THEN 3
     ELSE IF s.ncfail[r] = 1 \/ ~Has(h.files, f) THEN 8
     ELSE IF ~Has(h.files[f], vn) THEN 9
     ELSE LET v == VarRec(h, f, vn) IN
       IF Len(v.size) > h.maxdim THEN 11
       ELSE IF IsArr(gr.kind) /\ FileElemSize(v) % SizeOf[Elem(gr.kind)] # 0 THEN 12
       ELSE IF ~IsScalar(gr.kind) /\ gr.esize # 0 /\ gr.esize # FileElemSize(v) THEN 10
       ELSE IF MpiMode(h, gr) = "THREAD" /\ GridType(gr.ps) # "PASS_THROUGH" /\ r \notin s.comm THEN 6
       ELSE 0

BlockParams(gr, l, nd) == [n \in 1..nd |-> GetNum(gr.ps, BlockSizeName(n - 1), 0, l)]
NewLevel(h, s, r, g, f, l) ==
  LET gr == G(s, r, g)
      code == OpenCode(h, s, r, g, f, l)
      vn == VarName(gr, l)
      v == IF Has(h.files, f) /\ Has(h.files[f], vn) THEN VarRec(h, f, vn) ELSE [size |-> <<1>>]
      ok == code \in {0, 6}
      time == GetNum(gr.ps, "TIME_DIMENSION", -1, 0)
  IN [f |-> f, vn |-> vn, code |-> code, openb |-> {}, open |-> {}, v |-> v,
      b |-> IF ok THEN BlockSizes(v, BlockParams(gr, l, Len(v.size)), time) ELSE <<>>,
      cs |-> GetNum(gr.ps, "CACHE_SIZE", 128, l), spread |-> GetNum(gr.ps, "CACHE_HAND_SPREAD", -1, l)]
NewShared(h, gr, cfg, lev) ==
  [loaded |-> <<>>, caches |-> <<>>, dir |-> <<>>,
   total |-> IF lev.b # <<>> /\ (lev.v.mod = 0 \/ h.nclog) THEN TotalBlocks(lev.v, lev.b) ELSE 0]

ShKey(gr, g, l) == <<gr.cfg.group, g, l>>
\* thread t of process r enters open
OpenBegin(h, s, r, t, g, f, l, fiber) ==
  IF ~Live(s, r, g) THEN {}
  ELSE
  LET gr0 == G(s, r, g)
      gr1 == IF gr0.cfg.set THEN gr0 ELSE [gr0 EXCEPT !.cfg = Config(h, gr0, r)]
      lev == IF Has(gr1.lv, l) THEN gr1.lv[l] ELSE NewLevel(h, s, r, g, f, l)
      gr2 == [gr1 EXCEPT !.lv = (l :> [lev EXCEPT !.openb = @ \cup {t}]) @@ @,
                         !.esize = IF lev.code \in {0, 6} /\ @ = 0 /\ ~IsScalar(gr1.kind)
                                   THEN FileElemSize(lev.v) ELSE @]
      k == ShKey(gr2, g, l)
  IN IF gr0.closing \/ t \in lev.openb \/ t >= gr0.thr \/ lev.f # f THEN {}
     ELSE {[s EXCEPT !.grids[<<r, g>>] = gr2,
                     !.fib = (<<r, fiber>> :> t) @@ @,
                     !.sh = IF Has(@, k) THEN @ ELSE (k :> NewShared(h, gr2, gr2.cfg, lev)) @@ @,
                     !.cnt = IF Has(@, <<r, g, l>>) THEN @ ELSE (<<r, g, l>> :> Zero) @@ @]}

AllLoaded(s, gr, g, l) == LET sh == s.sh[ShKey(gr, g, l)] IN Cardinality(DOMAIN sh.loaded) = sh.total
\* ... and returns from it
Open(h, s, r, t, g, l, code) ==
  IF ~Live(s, r, g) THEN {}
  ELSE LET gr == G(s, r, g) IN
  IF ~Has(gr.lv, l) THEN {}
  ELSE LET lev == gr.lv[l] IN
  IF \/ lev.openb # 0..gr.thr-1 /\ code # 3       \* an undetectable NUMA node is reported at once
     \/ t \in lev.open \/ t \notin lev.openb
     \* what fails for one thread is reported to all of them
     \/ code # IF s.ncfail[r] = 2 THEN 8 ELSE IF s.mpifail[r] = 2 THEN 1 ELSE lev.code
     \/ code = 0 /\ gr.cfg.type = "FULL" /\ h.nclog /\ ~AllLoaded(s, gr, g, l)
  THEN {}
  ELSE {[s EXCEPT !.grids[<<r, g>>].lv[l].open = @ \cup {t}]}

\* ---------------------------------------------------------------- accesses to the file
\* the (grid, level) of process r that uses variable vn; only one by construction of the runs
Uses(s, r, vn) ==
  UNION {{<<k[2], l>> : l \in {l \in DOMAIN s.grids[k].lv : s.grids[k].lv[l].vn = vn}} :
         k \in {k \in DOMAIN s.grids : k[1] = r /\ ~s.grids[k].closing}}

BlocksOf(loaded, o) == Cardinality({b \in DOMAIN loaded : loaded[b] = o})
\* process r, simulated thread fiber reads start/count of variable vn
Read(h, s, r, fiber, vn, start, count) ==
  IF ~Has(s.fib, <<r, fiber>>) THEN {}
  ELSE
  LET t == s.fib[<<r, fiber>>]
      us == Uses(s, r, vn)
  IN IF Cardinality(us) # 1 THEN {}
     ELSE
     LET u == CHOOSE x \in us : TRUE
         g == u[1]
         l == u[2]
         gr == G(s, r, g)
         lev == gr.lv[l]
         k == ShKey(gr, g, l)
         sh == s.sh[k]
         o == <<r, Dom(h, gr, r, t)>>
     IN CASE gr.cfg.type = "FULL" ->
               IF t \in lev.open \/ t \notin lev.openb \/ ~IsBlock(lev.v, lev.b, start, count) THEN {}
               ELSE LET b == BlockOf(lev.v, lev.b, start) IN
                    IF Has(sh.loaded, b) THEN {}
                    ELSE LET ld == (b :> o) @@ sh.loaded IN
                      IF BlocksOf(ld, o) > CeilDiv(sh.total, Cardinality(gr.cfg.doms) * Cardinality(gr.cfg.group)) THEN {}
                      ELSE {[s EXCEPT !.sh[k].loaded = ld]}
          [] gr.cfg.type = "CACHE" ->
               IF t \notin lev.open \/ ~IsBlock(lev.v, lev.b, start, count) THEN {}
               ELSE LET b == BlockOf(lev.v, lev.b, start) IN
                    \* nothing is ever replaced and directory accesses are atomic: one access per block
                    IF /\ lev.cs >= sh.total /\ Has(sh.loaded, b)
                       /\ \/ gr.cfg.mpi = "WINDOW" /\ Cardinality(gr.cfg.group) * Cardinality(gr.cfg.doms) <= 4
                          \/ Cardinality(gr.cfg.group) * Cardinality(gr.cfg.doms) = 1       \* one cache
                    THEN {}
                    ELSE {[s EXCEPT !.pend = (<<r, t>> :> Append(IF Has(@, <<r, t>>) THEN @[<<r, t>>] ELSE <<>>, [g |-> g, l |-> l, b |-> b])) @@ @,
                                    !.sh[k].loaded = (b :> o) @@ @,
                                    !.cnt[<<r, g, l>>].file = @ + (IF h.seq THEN 0 ELSE 1)]}
          [] OTHER ->
               IF t \notin lev.open \/ Len(start) # Len(lev.v.size) \/ \E i \in 1..Len(start) : count[i] # 1 \/ start[i] < 0 \/ start[i] >= lev.v.size[i] THEN {}
               ELSE {[s EXCEPT !.pend = (<<r, t>> :> Append(IF Has(@, <<r, t>>) THEN @[<<r, t>>] ELSE <<>>, [g |-> g, l |-> l, b |-> Lin(start, lev.v.size)])) @@ @]}

\* ---------------------------------------------------------------- values
Trunc2(x) == IF x >= 0 THEN (x \div 2) * 2 ELSE -(((-x) \div 2) * 2)      \* to an integer, towards zero
HalfEven(k, n) == LET q == k \div n
                      r == k % n IN IF 2 * r > n \/ (2 * r = n /\ q % 2 = 1) THEN (q + 1) * n ELSE q * n
\* values are doubled; wide ones: Mid + k is 2^30 + k, Big + k is 2^53 + k
Mid == 800000000
Big == 1000000000
ToType(t, x) ==
  CASE x >= Big -> (CASE t = "long" -> x [] t = "double" -> Big + HalfEven(x - Big, 2) [] t = "float" -> Big
                      [] t = "int" -> 2 * (x - Big) [] OTHER -> 2 * ((x - Big) % 256))
    [] x >= Mid /\ x < Big -> (CASE t = "float" -> Mid + HalfEven(x - Mid, 128) [] t = "byte" -> 2 * ((x - Mid) % 256) [] OTHER -> x)
    [] OTHER -> IF t = "byte" THEN Trunc2(x) % 512 ELSE IF t \in {"int", "long"} THEN Trunc2(x) ELSE x
\* element e of cell lin in the file
StoredAs(t, x) == IF x < Mid /\ t = "byte" THEN 2 * ((Trunc2(x) \div 2) % 251) ELSE ToType(t, x)
\* the number of a cell modulo m
RECURSIVE LinModUp(_, _, _, _)
LinModUp(cell, size, m, n) == IF n = 0 THEN 0 ELSE ((LinModUp(cell, size, m, n - 1) * (size[n] % m)) + (cell[n] % m)) % m
LinMod(cell, size, m) == LinModUp(cell, size, m, Len(size))
FileTypes(v) ==
  CASE v.t = "struct" -> <<"int", "float">> [] v.t = "structb" -> <<"byte", "double", "int">>
    [] v.t = "structw" -> <<"int", "int", "byte", "byte", "byte", "long">> [] OTHER -> [e \in 1..v.K |-> v.t]
FileCell(v, lin) == LET ft == FileTypes(v) IN [e \in 1..Len(ft) |-> StoredAs(ft[e], v.base2 + (IF v.base2 >= Mid THEN 1 ELSE 2) * (lin * Len(ft) + e - 1))]
\* the element as the grid holds it and as the getter returns it
GridCell(gr, v, lin) ==
  LET c == FileCell(v, lin) IN IF IsScalar(gr.kind) THEN <<ToType(gr.kind, c[1])>> ELSE c
Answer(gr, v, lin, getter) ==
  LET c == GridCell(gr, v, lin) IN IF getter = "buf" THEN c ELSE <<ToType(getter, c[1])>>

\* ---------------------------------------------------------------- reading
DirRemove(d, x) == SelectSeq(d, LAMBDA y : y # x)
DirAdd(d, x) == LET e == <<x>> \o d IN IF Len(e) > 4 THEN SubSeq(e, 1, 4) ELSE e
DirOf(sh, b) == IF Has(sh.dir, b) THEN sh.dir[b] ELSE <<>>

\* sequential history: what a read of block b by process r, domain d does to caches, directory and counters;
\* [sh, cnt, file: blocks read from the file]
Fetch(gr, lev, sh, cnt, r, d, b) ==
  LET me == <<r, d>>
      c0 == IF Has(sh.caches, me) THEN sh.caches[me] ELSE NewCache(lev.cs, lev.spread)
      acc == [cnt EXCEPT !.acc = @ + 1]
      others == {x \in DOMAIN sh.caches : x[1] = r /\ x[2] # d /\ Holds(sh.caches[x], b)}
      isfull == gr.cfg.type = "FULL"
      ins == Insert(c0, b)
      dirOn == ~isfull /\ gr.cfg.mpi # "OFF"
      d1 == IF ~dirOn \/ ins.old = -1 THEN sh.dir ELSE (ins.old :> DirRemove(DirOf(sh, ins.old), <<r, d, ins.slot>>)) @@ sh.dir
      hold == IF Has(d1, b) THEN d1[b] ELSE <<>>
      d2 == IF dirOn THEN (b :> DirAdd(hold, <<r, d, ins.slot>>)) @@ d1 ELSE sh.dir
      sh2 == [sh EXCEPT !.caches = (me :> ins.c) @@ @, !.dir = d2]
      numa == IF isfull THEN sh.loaded[b][1] = r \/ (gr.cfg.numa = "CACHE" /\ others # {})
              ELSE gr.cfg.numa # "OFF" /\ others # {}
      mpi == IF isfull THEN TRUE ELSE dirOn /\ hold # <<>>
  IN IF isfull /\ sh.loaded[b] = me THEN [sh |-> sh, cnt |-> acc, file |-> <<>>]
     ELSE IF Holds(c0, b) THEN [sh |-> [sh EXCEPT !.caches = (me :> Touch(c0, b)) @@ @], cnt |-> acc, file |-> <<>>]
     ELSE IF numa THEN [sh |-> sh2, cnt |-> [acc EXCEPT !.numa = @ + 1], file |-> <<>>]
     ELSE IF mpi THEN [sh |-> sh2, cnt |-> [acc EXCEPT !.mpi = @ + 1], file |-> <<>>]
     ELSE [sh |-> sh2, cnt |-> [acc EXCEPT !.file = @ + 1], file |-> <<b>>]

\* every thread of process r has a NUMA domain of its own
Roomy(h, lev, sh) == h.pred /\ h.cnt /\ sh.total > 0 /\ lev.cs >= sh.total
Alone(h, gr, r) == h.pred /\ Cardinality(Doms(h, gr, r)) = gr.thr
GetOf(h, s, r, t, g, l, lin, b) ==       \* the effect of reading cell lin in block b: set of next states
  LET gr == G(s, r, g)
      lev == gr.lv[l]
      k == ShKey(gr, g, l)
      p == IF Has(s.pend, <<r, t>>) THEN s.pend[<<r, t>>] ELSE <<>>
      s1 == [s EXCEPT !.pend = IF p = <<>> THEN @ ELSE Del(@, <<r, t>>)]
      ck == <<r, g, l>>
  IN CASE gr.cfg.type = "PASS_THROUGH" ->
            IF h.nclog /\ p # <<[g |-> g, l |-> l, b |-> lin]>> THEN {}
            ELSE {[s1 EXCEPT !.cnt[ck].acc = @ + 1, !.cnt[ck].file = @ + 1]}
       [] h.seq ->
            LET x == Fetch(gr, lev, s.sh[k], s.cnt[ck], r, Dom(h, gr, r, t), b) IN
            IF p # [i \in 1..Len(x.file) |-> [g |-> g, l |-> l, b |-> x.file[i]]] THEN {}
            ELSE {[s1 EXCEPT !.sh[k] = x.sh, !.cnt[ck] = x.cnt]}
       [] OTHER ->
            IF \/ gr.cfg.type = "FULL" /\ h.nclog /\ ~Has(s.sh[k].loaded, b)
               \/ p # <<>> /\ p # <<[g |-> g, l |-> l, b |-> b]>>
            THEN {}
            ELSE IF ~Alone(h, gr, r) /\ Roomy(h, lev, s.sh[k])
              THEN \* threads share a cache that replaces nothing: who misses depends on the schedule, how often anybody does, does not
              LET sh == s.sh[k]
                  me == <<r, Dom(h, gr, r, t)>>
                  got == IF Has(sh.caches, me) THEN sh.caches[me] ELSE {}
                  miss == ~(gr.cfg.type = "FULL" /\ sh.loaded[b] = me) /\ b \notin got
              IN {[s1 EXCEPT !.cnt[ck] = [@ EXCEPT !.acc = @ + 1, !.miss = @ + (IF miss THEN 1 ELSE 0),
                                                    !.numa = @ + (IF miss /\ gr.cfg.type = "FULL" /\ sh.loaded[b][1] = r THEN 1 ELSE 0)],
                             !.sh[k].caches = IF miss THEN (me :> (got \cup {b})) @@ @ ELSE @]}
            ELSE IF ~Alone(h, gr, r) THEN {[s1 EXCEPT !.cnt[ck].acc = @ + 1]}
            ELSE \* this thread alone uses its cache: hits and misses do not depend on the schedule
              LET sh == s.sh[k]
                  me == <<r, Dom(h, gr, r, t)>>
                  c0 == IF Has(sh.caches, me) THEN sh.caches[me] ELSE NewCache(lev.cs, lev.spread)
                  own == gr.cfg.type = "FULL" /\ sh.loaded[b] = me
                  hit == own \/ Holds(c0, b)
                  single == gr.cfg.type = "CACHE" /\ gr.cfg.mpi = "OFF" /\ gr.cfg.numa = "OFF"
              IN IF (hit /\ p # <<>>) \/ (single /\ ~hit /\ p = <<>>) THEN {}
                 ELSE {[s1 EXCEPT !.cnt[ck] = [@ EXCEPT !.acc = @ + 1, !.miss = @ + (IF hit THEN 0 ELSE 1),
                                                         !.numa = @ + (IF ~hit /\ gr.cfg.type = "FULL" /\ sh.loaded[b][1] = r THEN 1 ELSE 0)],
                                  !.sh[k].caches = IF own THEN @ ELSE (me :> (IF hit THEN Touch(c0, b) ELSE Insert(c0, b).c)) @@ @]}

Usable(s, r, t, g, l) ==
  Live(s, r, g) /\ LET gr == G(s, r, g) IN Has(gr.lv, l) /\ ~gr.closing /\ t \in gr.lv[l].open /\ gr.lv[l].code = 0
GetAt(h, s, r, t, g, l, getter, cell, vals) ==
  LET gr == G(s, r, g)
      v == gr.lv[l].v
      lin == IF v.mod = 0 THEN Lin(cell, v.size) ELSE LinMod(cell, v.size, v.mod)
      want == Answer(gr, v, lin, getter)
  IN IF vals # want THEN {}
     ELSE GetOf(h, s, r, t, g, l, lin, IF gr.cfg.type = "PASS_THROUGH" \/ (v.mod # 0 /\ ~h.nclog) THEN 0   \* huge: too many blocks for a number
                                      ELSE BlockOf(v, gr.lv[l].b, cell))
GetVal(h, s, r, t, g, l, getter, pos, vals) ==
  IF ~Usable(s, r, t, g, l) THEN {}
  ELSE GetAt(h, s, r, t, g, l, getter, Cell(G(s, r, g).lv[l].v, pos), vals)
\* reading at the reported minimum (bit clear) or maximum (bit set) of every dimension
EdgeCell(v, bits) ==
  LET nd == Len(v.size) IN
  [i \in 1..nd |-> LET hi == (bits \div (2^(nd - i))) % 2 = 1 IN
                   IF v.size[i] = 1 THEN 0 ELSE IF hi = (v.d[i] >= 0) THEN v.size[i] - 1 ELSE 0]
Edge(h, s, r, t, g, l, bits, vals) ==
  IF ~Usable(s, r, t, g, l) THEN {}
  ELSE GetAt(h, s, r, t, g, l, "double", EdgeCell(G(s, r, g).lv[l].v, bits), vals)

\* ---------------------------------------------------------------- description and counters
Meta(h, s, r, t, g, l, e) ==
  IF ~Usable(s, r, t, g, l) \/ ~Usable(s, r, t, g, 0) THEN {}
  ELSE
  LET gr == G(s, r, g)
      v0 == gr.lv[0].v
      v == gr.lv[l].v
      nd == Len(v0.size)
      x(n) == Extent(v0, n - 1, gr.cfg.vp)
      y(n) == Extent(v, n - 1, gr.cfg.vp)
  IN IF /\ e.nd = nd
        /\ e.size = GridElemSize(gr, v)
        /\ \A n \in 1..nd : e.min[n] = x(n).min /\ e.max[n] = x(n).max /\ e.mind[n] # 9 /\ e.maxd[n] # 9
                            \* the half cell is rounded towards the inside
                            /\ e.mind[n] # -1 /\ e.maxd[n] # 1
        /\ \A n \in 1..Len(v.size) : n <= nd => e.delta[n] = y(n).delta /\ e.deltad[n] # 9
     THEN {s} ELSE {}

CounterVal(c, n) ==
  CASE n = "accesses" -> c.acc [] n = "numa_transfers" -> c.numa [] n = "mpi_transfers" -> c.mpi
    [] n = "file_loads" -> c.file [] n = "local_hits" -> c.acc - c.numa - c.mpi - c.file
    [] n = "node_hits" -> c.acc - c.mpi - c.file [] n = "local_misses" -> c.numa + c.mpi + c.file [] OTHER -> 0
\* all counters of a level, in a quiescent state
Counters(h, s, r, g, l, e) ==
  IF ~Live(s, r, g) \/ ~Has(s.cnt, <<r, g, l>>) THEN {}
  ELSE
  LET c == s.cnt[<<r, g, l>>]
      gr == G(s, r, g)
  IN IF /\ e.local_misses = e.numa_transfers + e.mpi_transfers + e.file_loads
        /\ e.local_hits = e.accesses - e.local_misses
        /\ e.node_hits = e.accesses - e.mpi_transfers - e.file_loads
        /\ h.seq \/ h.cnt => e.accesses = c.acc
        /\ h.seq \/ (h.cnt /\ h.nclog) => e.file_loads = c.file
        /\ h.seq => e.numa_transfers = c.numa /\ e.mpi_transfers = c.mpi
        /\ ~h.seq /\ Alone(h, gr, r) /\ gr.cfg.type # "PASS_THROUGH" => e.accesses = c.acc /\ e.local_misses = c.miss
        /\ ~h.seq /\ Alone(h, gr, r) /\ gr.cfg.type = "FULL" => e.numa_transfers >= c.numa /\ (gr.cfg.numa # "CACHE" => e.numa_transfers = c.numa)
        /\ ~h.seq /\ ~Alone(h, gr, r) /\ gr.cfg.type # "PASS_THROUGH" /\ Roomy(h, gr.lv[l], s.sh[ShKey(gr, g, l)]) =>
             e.local_misses = c.miss /\ (gr.cfg.type = "FULL" => e.numa_transfers >= c.numa /\ (gr.cfg.numa # "CACHE" => e.numa_transfers = c.numa))
        /\ ~h.seq /\ Alone(h, gr, r) /\ gr.cfg.type = "CACHE" => e.file_loads = c.file
        /\ e.accesses <= c.acc /\ (h.nclog => e.file_loads <= c.file)
        /\ e.local_hits >= 0 \/ ~h.cnt
        /\ gr.cfg.numa = "OFF" => e.numa_transfers = 0 
        /\ gr.cfg.mpi = "OFF" => e.mpi_transfers = 0
        /\ gr.cfg.type = "FULL" => e.file_loads = 0
     THEN {s} ELSE {}
Counter(h, s, r, g, l, n, v) ==
  IF ~Live(s, r, g) \/ ~Has(s.cnt, <<r, g, l>>) THEN {}
  ELSE IF h.seq /\ v # CounterVal(s.cnt[<<r, g, l>>], n) THEN {} ELSE {s}

\* ---------------------------------------------------------------- closing, resources
CloseBegin(h, s, r, g) ==
  IF ~Live(s, r, g) \/ G(s, r, g).closing THEN {} ELSE {[s EXCEPT !.grids[<<r, g>>].closing = TRUE]}
\* close waits for all processes of the grid's communicator
Close(h, s, r, g) ==
  IF ~Live(s, r, g) THEN {}
  ELSE
  LET gr == G(s, r, g)
      grp == IF gr.cfg.set THEN gr.cfg.group ELSE gr.comm
  IN IF ~gr.closing \/ \E q \in grp : Live(s, q, g) /\ ~G(s, q, g).closing THEN {}
     ELSE {[s EXCEPT !.grids = Del(@, <<r, g>>),
                     !.cnt = [x \in {x \in DOMAIN @ : ~(x[1] = r /\ x[2] = g)} |-> @[x]],
                     !.sh = [x \in {x \in DOMAIN @ : ~(gr.cfg.set /\ x[1] = gr.cfg.group /\ x[2] = g)} |-> @[x]]]}
StartComm(h, s, r, code) ==
  IF s.mpifail[r] = 2 THEN IF code = 1 THEN {s} ELSE {}
  ELSE IF code = 0 THEN IF r \in s.comm THEN {} ELSE {[s EXCEPT !.comm = @ \cup {r}]}
  ELSE IF code = 7 /\ s.comm # {} THEN {s} ELSE {}
\* what is in use when no grid exists is what was in use before the first grid
Stat(h, s, r, vals) ==
  IF \E k \in DOMAIN s.grids : k[1] = r THEN {}
  ELSE IF ~Has(s.base, r) THEN {[s EXCEPT !.base = (r :> vals) @@ @]}
  ELSE IF s.base[r] = vals THEN {s} ELSE {}
\* the number of processes before r in the communicator that have r's processor name
Before(h, c, q, r) ==
  IF c = "user" THEN h.keys[q+1] < h.keys[r+1] \/ (h.keys[q+1] = h.keys[r+1] /\ q < r) ELSE q < r
NodeLocal(h, s, r, c, v) ==
  IF v = Cardinality({q \in GroupOf(h, r, c) : Before(h, c, q, r) /\ h.pn[q+1] = h.pn[r+1]}) THEN {s} ELSE {}
\* the numbers of the types and errors, in every language
Consts == <<"BYTE", "INT", "LONG", "FLOAT", "DOUBLE">>
Errors == <<"SUCCESS", "MPI_ERROR", "THREAD_ERROR", "NUMA_ERROR", "UNKNOWN_PARAM", "INVALID_VALUE", "NOT_INITIALIZED", "ALREADY_INITIALIZED",
            "NOT_OPEN", "VAR_NOT_FOUND", "WRONG_SIZE", "UNSUPPORTED_DIMENSIONS", "INVALID_VAR_SIZE">>
Const(s, n, cpp, c, f) ==
  IF cpp = c /\ c = f /\ \E L \in {Consts, Errors} : \E i \in DOMAIN L : L[i] = n /\ cpp = i - 1 THEN {s} ELSE {}
=============================================================================
