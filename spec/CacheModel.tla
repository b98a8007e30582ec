---------------------------- MODULE CacheModel -----------------------------
(* All sequences of lookups and insertions on a clock cache of N slots, for  *)
(* every hand spread.                                                        *)
EXTENDS Clock, TLC
CONSTANTS NMAX, B
VARIABLES c, spread, present, cleared, inserts, last
vars == <<c, spread, present, cleared, inserts, last>>
\* present: blocks inserted and not reported as replaced since; cleared: slots whose last access is older
\* than the last pass of the clearing hand; inserts: number of insertions (up to n)
Init ==
  \E n \in 1..NMAX, sp \in -1..NMAX + 1 :
    /\ spread = sp /\ c = NewCache(n, sp)
    /\ present = {} /\ cleared = 0..n-1 /\ inserts = 0 /\ last = [slot |-> -1, old |-> -1, was |-> -1]
RECURSIVE Passed(_, _)      \* slots the clearing hand passes during a replacement
Passed(d, acc) == LET e == Tick(d) IN IF e.ref[e.next] THEN Passed(e, acc \cup {d.clear}) ELSE acc \cup {d.clear}
Lookup(b) ==
  /\ Holds(c, b)
  /\ c' = Touch(c, b) /\ cleared' = cleared \ {SlotOf(c, b)}
  /\ UNCHANGED <<spread, present, inserts>> /\ last' = [slot |-> -1, old |-> -1, was |-> -1]
Add(b) ==
  /\ ~Holds(c, b)
  /\ LET r == Insert(c, b) IN
     /\ c' = r.c
     /\ present' = (present \ {r.old}) \cup {b}
     /\ cleared' = (cleared \cup Passed(c, {})) \ {r.slot}
     /\ inserts' = IF inserts < c.n THEN inserts + 1 ELSE inserts
     /\ last' = [slot |-> r.slot, old |-> r.old, was |-> IF r.slot \in cleared \cup Passed(c, {}) THEN 1 ELSE 0]
     /\ Assert(Cardinality(Passed(c, {})) <= Spread(c.n, spread) + 1, "long sweep")
     /\ Assert(inserts < c.n => r.slot = inserts /\ r.old = -1, "fill order")
     /\ Assert(inserts = c.n => r.old # -1, "evicts")
  /\ UNCHANGED spread
Next == \E b \in 1..B : Lookup(b) \/ Add(b)
Spec == Init /\ [][Next]_vars
Distinct == \A i, j \in 0..c.n-1 : i # j => (c.slot[i] # c.slot[j] \/ c.slot[i] = -1)
Found == \A b \in 1..B : Holds(c, b) <=> b \in present
Bounded == Cardinality(present) <= c.n
\* a slot is referenced exactly if the clearing hand did not pass since its last access; only others are replaced
RefMeans == \A k \in 0..c.n-1 : c.ref[k] <=> k \notin cleared
Spared == last.slot # -1 => last.was = 1
Gap == (c.clear - c.next) % c.n = (Spread(c.n, spread) + 1) % c.n
=============================================================================
