--------------------------------- MODULE Data ---------------------------------
(***************************************************************************)
(* What is stored on the octree forest: cells in blocks, named fields,      *)
(* named particle arrays with named attributes, ghost copies of cells.      *)
(* A block has b[1] x b[2] x b[3] cells (b[3] = 1 in 2D), x fastest; a cell  *)
(* is named by its octant and its block coordinates, or by its global index *)
(* X = o * b + i at the level of its octant.                                *)
(***************************************************************************)
EXTENDS Octree

BZ(g) == IF g.dim = 3 THEN g.b[3] ELSE 1
B(g, d) == IF d <= g.dim THEN g.b[d] ELSE 1
NCells(g) == g.b[1] * g.b[2] * BZ(g)
(* block coordinates of the c-th cell (1-based) and back *)
CellAt(g, c) == << (c - 1) % g.b[1], ((c - 1) \div g.b[1]) % g.b[2], (c - 1) \div (g.b[1] * g.b[2]) >>
CellNo(g, i) == 1 + i[1] + g.b[1] * (i[2] + g.b[2] * i[3])
(* global cell index of a cell at the level of its octant *)
GCell(g, o, i) == << o[2] * B(g, 1) + i[1], o[3] * B(g, 2) + i[2], o[4] * B(g, 3) + i[3] >>
OctOfG(g, l, X) == << l, X[1] \div B(g, 1), X[2] \div B(g, 2), X[3] \div B(g, 3) >>
InBlock(g, X) == << X[1] % B(g, 1), X[2] % B(g, 2), X[3] % B(g, 3) >>

(* a table octant -> row out of the per-process sequences *)
Table(own, rows) == LET S == UNION { { << own[r][i], rows[r][i] >> : i \in DOMAIN own[r] } : r \in DOMAIN own }
                    IN S
RowOf(own, rows) == LET D == UNION { RangeOf(own[r]) : r \in DOMAIN own }
                        at(o) == CHOOSE p \in { << r, i >> : r \in DOMAIN own, i \in 1..MaxOf({0} \cup { Len(own[q]) : q \in DOMAIN own }) } :
                                   p[2] <= Len(own[p[1]]) /\ own[p[1]][p[2]] = o
                    IN TLCEval([ o \in D |-> LET r == CHOOSE r \in DOMAIN own : o \in RangeOf(own[r])
                                                 i == CHOOSE i \in DOMAIN own[r] : own[r][i] = o
                                             IN rows[r][i] ])
Idx(names, n) == CHOOSE i \in DOMAIN names : names[i] = n

(******************** which ghost cells an exchange has to fill *************)
(* Along axis d, some periodic image of octant o touches octant q (their closed boxes meet) and is less than
   depth cells (of q's size) away from cell i of q; lengths in units of finest cells. *)
NearAxis(g, d, q, i, o, depth) ==
  LET w == Scale(g, q)  v == Scale(g, o)  N == g.b[d] * Cnt(g, d, g.lmax)
      q0 == q[d + 1] * g.b[d] * w  q1 == q0 + g.b[d] * w
      c0 == q0 + i[d] * w  c1 == c0 + w
      gap(a0, a1, s) == Max2(0, Max2(o[d + 1] * g.b[d] * v + s - a1, a0 - (o[d + 1] + 1) * g.b[d] * v - s))
  IN \E s \in (IF g.per[d] = 1 THEN {0, N, -N} ELSE {0}) : gap(q0, q1, s) = 0 /\ gap(c0, c1, s) < depth * w
NearCell(g, q, i, o, depth) == \A d \in Dims(g) : NearAxis(g, d, q, i, o, depth)
Within(g, q, i, T, depth) == \E o \in T : NearCell(g, q, i, o, depth)

(********************** transfer of cell values by adaptation ***************)
RefinedFrom(g, o, i) == LET X == GCell(g, o, i)  Y == << X[1] \div 2, X[2] \div 2, X[3] \div 2 >>
                        IN << OctOfG(g, o[1] - 1, Y), InBlock(g, Y) >>
CoarsenedFrom(g, o, i) == LET X == GCell(g, o, i) IN
   { LET Y == << 2 * X[1] + b[1], 2 * X[2] + b[2], IF g.dim = 3 THEN 2 * X[3] + b[3] ELSE 0 >>
     IN << OctOfG(g, o[1] + 1, Y), InBlock(g, Y) >> : b \in Bits(g) }

(******************************* particles **********************************)
BagOf(q) == [ x \in RangeOf(q) |-> Cardinality({ i \in DOMAIN q : q[i] = x }) ]
(* octant o contains lattice point p (F sub-positions per finest octant) *)
Contains(g, o, p) == \A d \in Dims(g) : p[d] \div (g.F * Scale(g, o)) = o[d + 1]

(************************** neighbours of a cell ****************************)
FloorDiv(a, b) == a \div b
OctOffset(g, i, f) == << (i[1] + f[1]) \div B(g, 1), (i[2] + f[2]) \div B(g, 2), (i[3] + f[3]) \div B(g, 3) >>
WrapX(g, l, X) == [ d \in 1..3 |-> IF d <= g.dim THEN X[d] % (g.b[d] * Cnt(g, d, l)) ELSE 0 ]
(* subcells of the same-size neighbour in direction f that touch the cell it is seen from *)
TouchBits(g, f) == { b \in Bits(g) : \A d \in Dims(g) : (f[d] > 0 => b[d] = 0) /\ (f[d] < 0 => b[d] = 1) }
(* <<status, set of << octant, block coordinates >> >>: 0 same octant, 1 same size, 2 smaller, 3 bigger, 4 boundary *)
CellNeighbour(g, M, o, i, f) ==
  LET od == OctOffset(g, i, f)
      X == << o[2] * B(g, 1) + i[1] + f[1], o[3] * B(g, 2) + i[2] + f[2], o[4] * B(g, 3) + i[3] + f[3] >>
  IN IF od = << 0, 0, 0 >> THEN << 0, { << o, InBlock(g, X) >> } >>
     ELSE IF Out(g, o, od) THEN << 4, {} >>
     ELSE LET n == Shift(g, o, od)  W == WrapX(g, o[1], X) IN
          IF n \in M THEN << 1, { << n, InBlock(g, W) >> } >>
          ELSE IF Parent(n) \in M THEN LET Y == << W[1] \div 2, W[2] \div 2, W[3] \div 2 >> IN << 3, { << Parent(n), InBlock(g, Y) >> } >>
          ELSE << 2, { LET Y == << 2 * W[1] + b[1], 2 * W[2] + b[2], IF g.dim = 3 THEN 2 * W[3] + b[3] ELSE 0 >>
                       IN << OctOfG(g, o[1] + 1, Y), InBlock(g, Y) >> : b \in TouchBits(g, f) } >>
(* the inner cell and the offset a boundary cell is described by *)
Clamp(a, n) == IF a < 0 THEN 0 ELSE IF a >= n THEN n - 1 ELSE a
BoundaryCell(g, o, i, f) == LET p == << i[1] + f[1], i[2] + f[2], i[3] + f[3] >>
                                q == << Clamp(p[1], B(g, 1)), Clamp(p[2], B(g, 2)), Clamp(p[3], B(g, 3)) >>
                            IN << o, q, << p[1] - q[1], p[2] - q[2], p[3] - q[3] >> >>
=============================================================================
