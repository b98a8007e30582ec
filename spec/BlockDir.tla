------------------------------ MODULE BlockDir ------------------------------
(***************************************************************************)
(* The directory: per block the newest registered holders, newest first,   *)
(* at most SIZE of them.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
SIZE == 4
Cut(l) == IF Len(l) > SIZE THEN SubSeq(l, 1, SIZE) ELSE l
Register(l, h) == Cut(<<h>> \o l)
RECURSIVE RemoveFirst(_, _)
RemoveFirst(l, h) == IF l = << >> THEN l ELSE IF Head(l) = h THEN Tail(l) ELSE <<Head(l)>> \o RemoveFirst(Tail(l), h)
Unregister(l, h) == RemoveFirst(l, h)
\* a lookup: any of the holders, -1 if there is none
Lookup(l) == IF l = << >> THEN {-1} ELSE {l[i] : i \in 1..Len(l)}
=============================================================================
