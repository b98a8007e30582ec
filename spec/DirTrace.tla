------------------------------ MODULE DirTrace ------------------------------
(***************************************************************************)
(* The directory of the blocks held by all processes, used concurrently.   *)
(* Every registration, removal and lookup takes effect at one moment:      *)
(*  - windows: between its call and its return; a lookup with registration *)
(*    keeps others from the block's entry until it is ended,               *)
(*  - messages: between its call and the next quiescent point, those of a  *)
(*    thread in order; lookups before they return.                         *)
(* s.dir[b]: holders (BlockDir); s.pend[b]: operations that may not have   *)
(* taken effect yet; s.lock[b]: thread that is taking the block over.      *)
(***************************************************************************)
EXTENDS BlockDir, Json, IOUtils
VARIABLES tr, pos, st
At(f, b, x) == IF b \in DOMAIN f THEN f[b] ELSE x
Put(f, b, x) == (b :> x) @@ f
Init0(h) == [dir |-> << >>, pend |-> << >>, lock |-> << >>]
Who(e) == <<e.r, e.t>>
\* the state of one block: [d: holders, p: pending operations]
Blk(s, b) == [d |-> At(s.dir, b, << >>), p |-> At(s.pend, b, << >>)]
Set(s, b, k) == [s EXCEPT !.dir = Put(@, b, k.d), !.pend = Put(@, b, k.p)]
Drop(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
See(k) == [k EXCEPT !.p = [i \in 1..Len(k.p) |-> IF k.p[i].op = "look" THEN [k.p[i] EXCEPT !.vals = @ \cup Lookup(k.d)] ELSE k.p[i]]]
\* operation i takes effect
Do(k, i) ==
  LET o == k.p[i] IN
  See([d |-> IF o.op = "del" THEN Unregister(k.d, o.h) ELSE Register(k.d, o.h), p |-> Drop(k.p, i)])
Free(k, i) == k.p[i].op \in {"add", "del"} /\ \A j \in 1..i-1 : k.p[j].w # k.p[i].w \/ k.p[j].op = "look"
RECURSIVE Later(_)
Later(ks) == LET n == ks \cup UNION {{Do(k, i) : i \in {j \in 1..Len(k.p) : Free(k, j)}} : k \in ks} IN
             IF n = ks THEN ks ELSE Later(n)
\* nothing takes effect on a block that somebody is taking over
Reach(s, b) == IF b \in DOMAIN s.lock THEN {Blk(s, b)} ELSE Later({Blk(s, b)})
Mine(k, w, op) == {i \in 1..Len(k.p) : k.p[i].w = w /\ k.p[i].op = op}
Begin(s, e, op) ==
  LET k == Blk(s, e.b) IN
  Set(s, e.b, See([k EXCEPT !.p = Append(@, [w |-> Who(e), op |-> op, h |-> e.h, vals |-> {}])]))
RECURSIVE AllDone(_, _)
AllDone(ss, bs) ==
  IF bs = {} THEN ss
  ELSE LET b == CHOOSE x \in bs : TRUE IN
       AllDone(UNION {{Set(s, b, k) : k \in {x \in Reach(s, b) : x.p = << >>}} : s \in ss}, bs \ {b})
Step(h, s, e) ==
  CASE e.e = "new" -> IF e.code = 0 THEN {s} ELSE {}
    [] e.e = "startb" -> {Begin(s, e, IF h.win THEN "take" ELSE "look")}
    [] e.e = "start" ->
         IF h.win
         THEN IF e.b \in DOMAIN s.lock THEN {}
              ELSE {[Set(s, e.b, k) EXCEPT !.lock = Put(@, e.b, Who(e))] :
                    k \in UNION {{Do(x, i) : i \in Mine(x, Who(e), "take")} : x \in {y \in Reach(s, e.b) : e.v \in Lookup(y.d)}}}
         ELSE {Set(s, e.b, [k EXCEPT !.p = Drop(@, CHOOSE i \in Mine(k, Who(e), "look") : TRUE)]) :
               k \in {y \in Reach(s, e.b) : \E i \in Mine(y, Who(e), "look") : e.v \in y.p[i].vals}}
    [] e.e = "moved" -> IF e.v = e.b THEN {s} ELSE {}
    [] e.e = "endb" -> IF h.win THEN (IF At(s.lock, e.b, <<>>) = Who(e) THEN {[s EXCEPT !.lock = [x \in DOMAIN @ \ {e.b} |-> @[x]]]} ELSE {})
                       ELSE {Begin(s, e, "add")}
    [] e.e = "addb" -> {Begin(s, e, "add")}
    [] e.e = "delb" -> {Begin(s, e, "del")}
    [] e.e \in {"add", "del"} ->
         IF h.win THEN {Set(s, e.b, k) : k \in {x \in Reach(s, e.b) : Mine(x, Who(e), e.e) = {}}} ELSE {s}
    [] e.e = "end1" -> {s}
    [] e.e = "quiet" -> IF s.lock # << >> THEN {} ELSE AllDone({s}, DOMAIN s.pend)
    [] e.e = "end" -> {s}
    [] OTHER -> {}
Hidden(h, s) == {}
Traces == ndJsonDeserialize(IOEnv.TRACES)
INSTANCE Replay
=============================================================================
