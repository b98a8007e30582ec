----------------------------- MODULE GeoModel ------------------------------
(* The formulas of Geometry against their declarative meaning, for every small variable. *)
EXTENDS Geometry
CONSTANTS N, P
VARIABLES k, x        \* k: which question, x: its parameters
vars == <<k, x>>
D1 == {-4, -3, -2, -1, 1, 2, 3, 4}
Init ==
  \/ k = "cell" /\ x \in [n : 1..N, off : -2..2, d : D1, p : -P..P]
  \/ k = "blocks" /\ x \in [s1 : 1..N, s2 : 1..N, b1 : {-1, 0} \cup 1..N+1, b2 : {-1} \cup 1..N+1, time : -1..1]
  \/ k = "extent" /\ x \in [n : 1..N, off : -2..2, d : {-4, -2, 2, 4}, vp : {"CELL", "VERTEX"}]
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* the selected cell is a nearest one, the last of two equally near, clamped outside
NearestCell ==
  k = "cell" =>
    LET c == Cell1(x.p, x.n, x.off, x.d)
        dist(i) == Abs(x.off + i * x.d - x.p)
    IN /\ c \in 0..x.n-1
       /\ \A i \in 0..x.n-1 : dist(c) <= dist(i) /\ (dist(i) = dist(c) => i <= c)
\* the blocks partition the cells; whole blocks are recognised
Partition ==
  k = "blocks" =>
    LET v == [size |-> <<x.s1, x.s2>>]
        b == BlockSizes(v, <<x.b1, x.b2>>, x.time)
        cells == (0..x.s1-1) \X (0..x.s2-1)
        blk(c) == BlockOf(v, b, c)
        start(c) == [i \in 1..2 |-> (c[i] \div b[i]) * b[i]]
        count(c) == [i \in 1..2 |-> Min2(b[i], v.size[i] - start(c)[i])]
    IN /\ {blk(c) : c \in cells} = 0..TotalBlocks(v, b)-1
       /\ \A c \in cells :
            /\ IsBlock(v, b, start(c), count(c)) /\ BlockOf(v, b, start(c)) = blk(c)
            /\ {e \in cells : blk(e) = blk(c)} =
               {e \in cells : \A i \in 1..2 : e[i] >= start(c)[i] /\ e[i] < start(c)[i] + count(c)[i]}
       /\ {Lin(c, v.size) : c \in cells} = 0..x.s1*x.s2-1
\* the extent contains all coordinates and its ends select the outermost cells
Extents ==
  k = "extent" =>
    LET v == [size |-> <<x.n>>, off |-> <<x.off>>, d |-> <<x.d>>]
        e == Extent(v, 0, x.vp)
    IN /\ e.min <= e.max
       /\ \A i \in 0..x.n-1 : e.min <= x.off + i * x.d /\ x.off + i * x.d <= e.max
       /\ x.n > 1 => /\ e.delta = Abs(x.d)
                     /\ e.max - e.min = (IF x.vp = "CELL" THEN x.n ELSE x.n - 1) * e.delta
                     /\ x.vp = "VERTEX" => {Cell1(e.min, x.n, x.off, x.d), Cell1(e.max, x.n, x.off, x.d)} = {0, x.n - 1}
=============================================================================
