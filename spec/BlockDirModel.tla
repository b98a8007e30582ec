---------------------------- MODULE BlockDirModel ---------------------------
(***************************************************************************)
(* The fixed-size arrays of the code (shift in, shift out, -1 = unused)    *)
(* against the list of BlockDir and against the complete history.          *)
(***************************************************************************)
EXTENDS BlockDir
CONSTANTS HOLDERS, HLEN
VARIABLES arr, lst, hist
vars == <<arr, lst, hist>>
\* arr: the array (1-based); lst: BlockDir's list; hist: all registered and not unregistered holders, newest first
Init == arr = [i \in 1..SIZE |-> -1] /\ lst = << >> /\ hist = << >>
Count(a) == IF \E i \in 1..SIZE : a[i] < 0 THEN (CHOOSE i \in 1..SIZE : a[i] < 0 /\ \A j \in 1..i-1 : a[j] >= 0) - 1 ELSE SIZE
Min(a, b) == IF a < b THEN a ELSE b
Put(h) ==
  LET c == Min(Count(arr), SIZE - 1) IN
  /\ Len(hist) < HLEN
  /\ arr' = [i \in 1..SIZE |-> IF i = 1 THEN h ELSE IF i <= c + 1 THEN arr[i-1] ELSE arr[i]]
  /\ lst' = Register(lst, h) /\ hist' = <<h>> \o hist
Del(h) ==
  LET w == {i \in 1..SIZE : arr[i] = h} IN
  /\ arr' = IF w = {} THEN arr ELSE LET i == CHOOSE x \in w : \A y \in w : x <= y IN
            [j \in 1..SIZE |-> IF j < i THEN arr[j] ELSE IF j < SIZE THEN arr[j+1] ELSE -1]
  /\ lst' = Unregister(lst, h) /\ hist' = RemoveFirst(hist, h)
Next == \E h \in HOLDERS : Put(h) \/ Del(h)
Same == /\ Count(arr) = Len(lst) /\ \A i \in 1..Len(lst) : arr[i] = lst[i] /\ \A j \in Len(lst)+1..SIZE : arr[j] = -1
\* the newest holders, and only holders
Newest == Len(lst) <= Len(hist) /\ lst = SubSeq(hist, 1, Len(lst))
Lookups == (-1 \in Lookup(lst)) <=> lst = << >>
=============================================================================
