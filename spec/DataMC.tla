-------------------------------- MODULE DataMC --------------------------------
(***************************************************************************)
(* Cells, particles and discrete operators on every reachable mesh of a      *)
(* small forest: the definitions the conformance modules judge the code by   *)
(* have the laws they are meant to have.  The mesh is the only variable;     *)
(* cell values range over a basis (one cell set, all others zero), which is  *)
(* enough for the operators that are linear.                                *)
(***************************************************************************)
EXTENDS Phys
CONSTANTS G, Near
VARIABLE M
Allowed(o) == { x \in -1..1 : ~(x = 1 /\ o[1] = G.lmax) /\ ~(x = -1 /\ o[1] = G.lmin) }
Marks == LET base(v) == [ o \in M |-> IF v \in Allowed(o) THEN v ELSE 0 ] IN
  IF Near = 0 THEN { base(v) : v \in -1..1 } \cup { [base(0) EXCEPT ![o] = 1] : o \in { x \in M : 1 \in Allowed(x) } }
  ELSE { m \in [M -> -1..1] : \A o \in M : m[o] \in Allowed(o) }
Start == M = CoarseMesh(G)
Next == \E m \in Marks : M' = AdaptMesh(G, M, m)
Spec == Start /\ [][Next]_M

N == NCells(G)
Cells(X) == { << o, CellAt(G, c) >> : o \in X, c \in 1..N }
Faces == FaceDirs(G)
Opp(f) == << -f[1], -f[2], -f[3] >>
Vol(x) == 2 ^ (G.dim * (G.lmax - x[1][1]))
(* ---- C13: neighbours exist, see each other, and faces match ---- *)
NeighboursExist == \A x \in Cells(M) : \A f \in Offsets(G) : CellNeighbour(G, M, x[1], x[2], f)[2] \subseteq Cells(M)
Reciprocal == \A x \in Cells(M) : \A f \in Faces : \A t \in CellNeighbour(G, M, x[1], x[2], f)[2] :
                x \in CellNeighbour(G, M, t[1], t[2], Opp(f))[2]
FacesMatch == \A x \in Cells(M) : \A f \in Faces : LET n == CellNeighbour(G, M, x[1], x[2], f) IN
                n[1] = 2 => Cardinality(n[2]) = 2 ^ (G.dim - 1) /\ \A t \in n[2] : t[1][1] = x[1][1] + 1
(* ---- C10: transfer: unchanged octants keep their cells, copies and means conserve every integral ---- *)
Transfer(old, new, src(_)) ==   \* value times 2^dim of every new cell
  [ x \in Cells(new) |-> IF x[1] \in old THEN (2 ^ G.dim) * src(x)
      ELSE IF Parent(x[1]) \in old THEN LET p == RefinedFrom(G, x[1], x[2]) IN (2 ^ G.dim) * src(p)
      ELSE LET v(p) == src(p) IN SumSet(v, CoarsenedFrom(G, x[1], x[2])) ]
TransferConserves == [][ \A y \in Cells(M) :
   LET one(x) == IF x = y THEN 1 ELSE 0
       T == TLCEval(Transfer(M, M', one))
       v(x) == T[x] * Vol(x)
   IN SumSet(v, Cells(M')) = (2 ^ G.dim) * Vol(y) ]_M
SourcesExist == [][ \A x \in Cells(M') : x[1] \notin M =>
   IF Parent(x[1]) \in M THEN RefinedFrom(G, x[1], x[2]) \in Cells(M) ELSE CoarsenedFrom(G, x[1], x[2]) \subseteq Cells(M) ]_M
(* ---- C11, C23: a point lies in one octant; a cloud in 3D hands out the whole mass where no cell is at a wall ---- *)
Points == LET n(d) == G.F * Cnt(G, d, G.lmax) IN { p \in (0..(n(1) - 1)) \X (0..(n(2) - 1)) \X (IF G.dim = 3 THEN 0..(n(3) - 1) ELSE {0}) : TRUE }
OneHome == \A p \in Points : Cardinality({ o \in M : Contains(G, o, p) }) = 1
CloudMass == G.dim = 3 => \A p \in Points : LET C == Cloud(G, M, p)  v(x) == x[4]  m == SumSet(v, C) IN
   /\ m <= Denom(G) /\ \A x \in C : x[4] >= 0
   /\ (\A d \in Dims(G) : G.per[d] = 1) => m = Denom(G)
(* ---- C26: the discrete Laplacian is symmetric, so a periodic or insulated box neither gains nor loses ---- *)
Entry(x, y) == LET one(o, i) == IF << o, i >> = y THEN 1 ELSE 0
                   d(f) == FaceDiff(G, M, one, "absorbing", x[1], x[2], f) * (2 ^ (G.lmax - x[1][1]))
               IN SumSet(d, Faces)
LaplaceSymmetric == G.dim = 3 => \A x \in Cells(M) : \A y \in UNION { CellNeighbour(G, M, x[1], x[2], f)[2] : f \in Faces } : Entry(x, y) = Entry(y, x)
ConstantsFree == G.dim = 3 => \A x \in Cells(M) : LET c(o, i) == 7  d(f) == FaceDiff(G, M, c, "absorbing", x[1], x[2], f) IN SumSet(d, Faces) = 0
(* ---- C25: the images of a mesh under the symmetries of the box are meshes ---- *)
ImageIsMesh == \A flip \in { << a, b, c >> : a \in 0..1, b \in 0..1, c \in (IF G.dim = 3 THEN 0..1 ELSE {0}) } :
   LET I == { Image(G, << 0, 1, 2 >>, flip, o) : o \in M } IN Tiling(G, I) /\ Balanced(G, I)
D1 == [dim |-> 2, cgs |-> <<2, 1, 1>>, lmin |-> 1, lmax |-> 2, per |-> <<1, 0, 0>>, b |-> <<2, 2, 1>>, F |-> 4]
D2 == [dim |-> 3, cgs |-> <<1, 1, 1>>, lmin |-> 0, lmax |-> 1, per |-> <<1, 1, 1>>, b |-> <<2, 2, 2>>, F |-> 4]
D3 == [dim |-> 3, cgs |-> <<2, 1, 1>>, lmin |-> 1, lmax |-> 2, per |-> <<1, 1, 1>>, b |-> <<2, 2, 2>>, F |-> 4]
D4 == [dim |-> 2, cgs |-> <<2, 2, 1>>, lmin |-> 1, lmax |-> 3, per |-> <<0, 1, 0>>, b |-> <<2, 4, 1>>, F |-> 8]
D5 == [dim |-> 3, cgs |-> <<2, 2, 1>>, lmin |-> 1, lmax |-> 2, per |-> <<0, 1, 0>>, b |-> <<2, 4, 2>>, F |-> 8]
===============================================================================
