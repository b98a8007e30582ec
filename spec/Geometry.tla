----------------------------- MODULE Geometry ------------------------------
(***************************************************************************)
(* Coordinates, cells and blocks of a variable.  All dimension lists are   *)
(* in file order; the interface uses the reverse order: interface          *)
(* dimension n (0-based) is file dimension nd-n (1-based).                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Inf == 2000000000
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b

\* nearest index of position p for first coordinate off and spacing d # 0 (ties go up), unclamped
Nearest(p, off, d) ==
  LET num == 2 * (p - off) + d IN IF d > 0 THEN num \div (2 * d) ELSE (-num) \div (-2 * d)
\* the selected (0-based) cell in a dimension of n cells
Cell1(p, n, off, d) ==
  IF n = 1 \/ d = 0 THEN 0
  ELSE LET x == Nearest(p, off, d) IN IF x < 0 THEN 0 ELSE IF x >= n THEN n - 1 ELSE x

\* v: variable record [size, off, d]; pos in interface order
Cell(v, pos) ==
  LET nd == Len(v.size) IN
  [i \in 1..nd |-> Cell1(pos[nd - i + 1], v.size[i], v.off[i], v.d[i])]

RECURSIVE LinUp(_, _, _)
LinUp(idx, size, i) == IF i = 0 THEN 0 ELSE LinUp(idx, size, i - 1) * size[i] + idx[i]
Lin(idx, size) == LinUp(idx, size, Len(size))

\* effective block size of file dimension i, given the requested sizes bs (interface order, 0 = default)
BlockSize(v, bs, time, i) ==
  LET n == Len(v.size) - i
      want == bs[n + 1]
      eff == IF want = 0 THEN (IF time = n THEN 1 ELSE 64) ELSE IF want < 0 THEN v.size[i] ELSE want
  IN Min2(eff, v.size[i])
BlockSizes(v, bs, time) == [i \in 1..Len(v.size) |-> BlockSize(v, bs, time, i)]
BlockCounts(v, b) == [i \in 1..Len(v.size) |-> CeilDiv(v.size[i], b[i])]
RECURSIVE Prod(_, _)
Prod(s, i) == IF i = 0 THEN 1 ELSE Prod(s, i - 1) * s[i]
TotalBlocks(v, b) == Prod(BlockCounts(v, b), Len(v.size))
BlockOf(v, b, cell) == Lin([i \in 1..Len(v.size) |-> cell[i] \div b[i]], BlockCounts(v, b))

\* a read of the file at start/count is exactly one whole block; its number
IsBlock(v, b, start, count) ==
  /\ Len(b) = Len(v.size) /\ Len(start) = Len(v.size)
  /\ \A i \in 1..Len(v.size) : start[i] >= 0 /\ start[i] < v.size[i] /\ start[i] % b[i] = 0
                               /\ count[i] = Min2(b[i], v.size[i] - start[i])

\* extent of interface dimension n (0-based), in coordinates; spacing even for cell-centered grids
Extent(v, n, vp) ==
  LET i == Len(v.size) - n
      a == v.off[i]
      z == v.off[i] + v.d[i] * (v.size[i] - 1)
      h == IF vp = "CELL" THEN v.d[i] \div 2 ELSE 0     \* exact: d is even
  IN IF v.size[i] = 1 THEN [min |-> -Inf, max |-> Inf, delta |-> Inf]
     ELSE [min |-> Min2(a - h, z + h), max |-> Max2(a - h, z + h), delta |-> Abs(v.d[i])]
=============================================================================
