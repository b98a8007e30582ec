------------------------------- MODULE Cache --------------------------------
(***************************************************************************)
(* The block cache: a clock-replaced set of slots (Clock), each of which   *)
(* is obtained by at most one thread at a time.                            *)
(*                                                                         *)
(*   s.c     Clock state            s.mem[k]  block filled into slot k, -1 *)
(*   s.held  slot -> thread         s.pend    thread -> its operation      *)
(*   s.rl    threads that are releasing a slot                             *)
(*                                                                         *)
(* A `get` takes effect atomically at some point between its call and its  *)
(* return, and only when nobody holds the slot it gets.                    *)
(***************************************************************************)
EXTENDS Clock, TLC

S0(n, spread) == [c |-> NewCache(n, spread), mem |-> [k \in 0..n-1 |-> -1], held |-> << >>, pend |-> << >>, rl |-> {}]

Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

\* ------------------------------------------------ the list without locking
Find(s, b, acc, hit, i) ==
  IF hit = 1 THEN IF Holds(s.c, b) /\ SlotOf(s.c, b) = i THEN {[s EXCEPT !.c = IF acc = 1 THEN Touch(@, b) ELSE @]} ELSE {}
  ELSE IF Holds(s.c, b) THEN {} ELSE {s}
Ins(s, b, i, old) ==
  LET r == Insert(s.c, b) IN
  IF ~Holds(s.c, b) /\ r.slot = i /\ r.old = old THEN {[s EXCEPT !.c = r.c]} ELSE {}

\* ------------------------------------------------ the manager
Free(s, k) == k \notin DOMAIN s.held
\* an attempt to get block b may fail only for one of these reasons
MayFail(s, t, b) == ~Holds(s.c, b) \/ ~Free(s, SlotOf(s.c, b)) \/ s.rl # {} \/ \E u \in DOMAIN s.pend : u # t
Weaken(s) == [s EXCEPT !.pend = [t \in DOMAIN @ |-> IF @[t].op = "try" /\ MayFail(s, t, @[t].b) THEN [@[t] EXCEPT !.weak = TRUE] ELSE @[t]]]
Begin(s, t, op, b) == {Weaken([s EXCEPT !.pend = With(@, t, [op |-> op, b |-> b, st |-> "call", weak |-> FALSE, i |-> -1, old |-> -2])])}

\* the operation of t takes effect
LinGet(s, t) ==
  LET p == s.pend[t] IN
  IF Holds(s.c, p.b) THEN
    LET k == SlotOf(s.c, p.b) IN
    IF Free(s, k) THEN {Weaken([s EXCEPT !.c = Touch(@, p.b), !.held = With(@, k, t), !.pend[t] = [p EXCEPT !.st = "done", !.i = k, !.old = p.b]])} ELSE {}
  ELSE LET r == Insert(s.c, p.b) IN
    IF Free(s, r.slot) THEN {Weaken([s EXCEPT !.c = r.c, !.held = With(@, r.slot, t), !.pend[t] = [p EXCEPT !.st = "done", !.i = r.slot, !.old = r.old]])} ELSE {}
LinTry(s, t) ==
  LET p == s.pend[t] IN
  IF Holds(s.c, p.b) /\ Free(s, SlotOf(s.c, p.b))
  THEN LET k == SlotOf(s.c, p.b) IN {Weaken([s EXCEPT !.held = With(@, k, t), !.pend[t] = [p EXCEPT !.st = "done", !.i = k]])} ELSE {}
HiddenLin(s) == UNION {IF s.pend[t].st # "call" THEN {} ELSE IF s.pend[t].op = "get" THEN LinGet(s, t) ELSE LinTry(s, t) : t \in DOMAIN s.pend}

Got(s, t, b, old, i, d) ==
  IF t \in DOMAIN s.pend /\ s.pend[t].op = "get" /\ s.pend[t].st = "done" /\ s.pend[t].b = b /\ s.pend[t].i = i /\ s.pend[t].old = old /\ d = i
  THEN {Weaken([s EXCEPT !.pend = Without(@, t)])} ELSE {}
Tried(s, t, b, ok, i, d) ==
  IF t \notin DOMAIN s.pend \/ s.pend[t].op # "try" \/ s.pend[t].b # b THEN {}
  ELSE IF ok = 1 THEN IF s.pend[t].st = "done" /\ s.pend[t].i = i /\ d = i THEN {Weaken([s EXCEPT !.pend = Without(@, t)])} ELSE {}
  ELSE IF s.pend[t].st = "call" /\ s.pend[t].weak THEN {Weaken([s EXCEPT !.pend = Without(@, t)])} ELSE {}
HeldBy(s, t) == CHOOSE k \in DOMAIN s.held : s.held[k] = t
Holding(s, t) == \E k \in DOMAIN s.held : s.held[k] = t
\* the holder sees what was filled in last, completely
\* (whatever it was before the first fill)
Mem(s, t, v) == IF Holding(s, t) /\ s.mem[HeldBy(s, t)] \in {-1, v} THEN {s} ELSE {}
Fill(s, t, v) == IF Holding(s, t) THEN LET k == HeldBy(s, t) IN IF s.c.slot[k] = v THEN {[s EXCEPT !.mem[k] = v]} ELSE {} ELSE {}
Rel(s, t, i) == IF i \in DOMAIN s.held /\ s.held[i] = t THEN {Weaken([s EXCEPT !.held = Without(@, i), !.rl = @ \cup {t}])} ELSE {}
Reld(s, t) == {Weaken([s EXCEPT !.rl = @ \ {t}])}
=============================================================================
