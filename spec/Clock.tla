------------------------------- MODULE Clock -------------------------------
(***************************************************************************)
(* A cache of n slots with two-hand clock replacement, as a pure state     *)
(* machine.  slot[k] is the block in slot k (0-based numbers in the code,  *)
(* 1-based here) or -1, ref[k] its reference bit, `next` the replacing     *)
(* hand and `clear` the clearing hand, `spread` slots ahead of it.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* the hand spread in effect: default half the cache, at most n-1
Spread(n, s) == IF s < 0 THEN n \div 2 ELSE IF s >= n THEN n - 1 ELSE s

NewCache(n, s) ==
  [n |-> n, slot |-> [k \in 0..n-1 |-> -1], ref |-> [k \in 0..n-1 |-> FALSE],
   next |-> n - 1, clear |-> Spread(n, s)]

Holds(c, b) == \E k \in 0..c.n-1 : c.slot[k] = b
SlotOf(c, b) == CHOOSE k \in 0..c.n-1 : c.slot[k] = b
Blocks(c) == {c.slot[k] : k \in 0..c.n-1} \ {-1}

\* a lookup that counts as an access
Touch(c, b) == IF Holds(c, b) THEN [c EXCEPT !.ref[SlotOf(c, b)] = TRUE] ELSE c

\* one step of both hands: the clearing hand forgets, then both advance
Tick(c) == [c EXCEPT !.ref[c.clear] = FALSE, !.next = (c.next + 1) % c.n, !.clear = (c.clear + 1) % c.n]

RECURSIVE Sweep(_)
Sweep(c) == LET d == Tick(c) IN IF d.ref[d.next] THEN Sweep(d) ELSE d

\* replacement: r.slot is the slot, r.old the replaced block (-1: was free), r.c the new state
Insert(c, b) ==
  LET d == Sweep(c) IN
  [slot |-> d.next, old |-> d.slot[d.next],
   c |-> [d EXCEPT !.ref[d.next] = TRUE, !.slot[d.next] = b]]
=============================================================================
