--------------------------------- MODULE Phys ---------------------------------
(***************************************************************************)
(* Kernels whose arithmetic is exact on the lattice: particle-mesh          *)
(* projection (nearest cell, cloud in cell), force interpolation, motion of *)
(* particles, refinement criteria.                                          *)
(***************************************************************************)
EXTENDS Data

(* width of a cell of octant o in lattice units; the widest one *)
CellW(g, o, d) == (g.F \div B(g, d)) * Scale(g, o)
WideW(g, d) == (g.F \div B(g, d)) * (2 ^ (g.lmax - g.lmin))
RECURSIVE Prod(_, _, _)
Prod(f(_), i, n) == IF i > n THEN 1 ELSE f(i) * Prod(f, i + 1, n)
(* all shares are counted in units of 1 / Denom *)
Denom(g) == LET f(d) == 2 * WideW(g, d) IN Prod(f, 1, g.dim) * (2 ^ (g.dim - 1))

HomeOct(g, M, p) == CHOOSE o \in M : Contains(g, o, p)
HomeCell(g, o, p) == [ d \in 1..3 |-> IF d <= g.dim THEN (p[d] - o[d + 1] * g.F * Scale(g, o)) \div CellW(g, o, d) ELSE 0 ]
(* twice the offset of lattice point p from the centre of its cell, in lattice units (never 0) *)
FromCentre(g, o, i, p, d) == 2 * (p[d] - o[d + 1] * g.F * Scale(g, o) - i[d] * CellW(g, o, d)) + 1 - CellW(g, o, d)
(* the cloud of a particle covers its cell and the neighbours on its side, each in proportion of the volume covered; what
   several smaller cells receive is shared equally; the part outside the domain is lost.  Sequence of << octant, cell, share >> *)
CloudDirs(g, s) == { f \in { << a, b, c >> : a \in {0, s[1]}, b \in {0, s[2]}, c \in {0, s[3]} } : TRUE }
Cloud(g, M, p) ==
  LET o == HomeOct(g, M, p)  i == HomeCell(g, o, p)
      q == TLCEval([ d \in 1..3 |-> IF d <= g.dim THEN FromCentre(g, o, i, p, d) ELSE 0 ])
      s == TLCEval([ d \in 1..3 |-> IF d > g.dim THEN 0 ELSE IF q[d] >= 0 THEN 1 ELSE -1 ])
      full(f) == LET v(d) == (IF f[d] = 0 THEN 2 * CellW(g, o, d) - Abs(q[d]) ELSE Abs(q[d])) * (WideW(g, d) \div CellW(g, o, d))
                 IN Prod(v, 1, g.dim) * (2 ^ (g.dim - 1))
      cells(f) == IF f = << 0, 0, 0 >> THEN { << o, i >> } ELSE CellNeighbour(g, M, o, i, f)[2]
  IN UNION { LET T == TLCEval(cells(f)) IN { << f, t[1], t[2], full(f) \div Cardinality(T) >> : t \in T } : f \in CloudDirs(g, s) }
Nearest(g, M, p) == LET o == HomeOct(g, M, p) IN { << << 0, 0, 0 >>, o, HomeCell(g, o, p), Denom(g) >> }
Shares(g, M, p, kind) == IF kind = "CIC" THEN Cloud(g, M, p) ELSE Nearest(g, M, p)

(* adds w * share of every entry of the set S of shares to the map acc from << octant, cell >> *)
RECURSIVE AddShares(_, _, _)
AddShares(acc, S, w) == IF S = {} THEN acc
   ELSE LET x == CHOOSE x \in S : TRUE  k == << x[2], << x[3][1], x[3][2], x[3][3] >> >>
        IN AddShares(IF k \in DOMAIN acc THEN [ acc EXCEPT ![k] = @ + w * x[4] ] ELSE (k :> (w * x[4])) @@ acc, S \ {x}, w)
RECURSIVE DepositFrom(_, _, _, _, _, _)
DepositFrom(g, M, ps, kind, i, acc) ==
   IF i > Len(ps) THEN acc
   ELSE DepositFrom(g, M, ps, kind, i + 1, TLCEval(AddShares(acc, Shares(g, M, << ps[i][1], ps[i][2], ps[i][3] >>, kind), ps[i][4])))
(* what every cell receives from the particles ps = << x, y, z, mass >>; cells that receive nothing are not listed *)
Deposit(g, M, ps, kind) == DepositFrom(g, M, ps, kind, 1, << >>)
RECURSIVE SumMass(_, _)
SumMass(ps, i) == IF i > Len(ps) THEN 0 ELSE ps[i][4] + SumMass(ps, i + 1)

(* a field interpolated at a particle: the transposed of the deposit *)
RECURSIVE Gather(_, _, _)
Gather(val(_, _), S, acc) == IF S = {} THEN acc
   ELSE LET x == CHOOSE x \in S : TRUE IN Gather(val, S \ {x}, acc + x[4] * val(x[2], x[3]))

(************************* refinement criteria ******************************)
(* a criterion gives every cell 1 (refine), 0 or -1 (coarsen); an octant gets the largest of its cells, within the level
   bounds.  val(o, i): the values of a cell; n/m > hi/q asks for refinement, n/m <= lo/q for coarsening.
   Ties of rounded quotients are not decided: 9. *)
Judge(n, m, hi, lo, q) == IF n * q > hi * m THEN 1 ELSE IF n * q <= lo * m THEN -1 ELSE 0
Tie(n, m, hi, lo, q) == n * q = hi * m \/ n * q = lo * m
FaceDirs(g) == { f \in Offsets(g) : Cardinality({ k \in 1..3 : f[k] # 0 }) = 1 }
(* relative jump to the face neighbours, the largest one *)
Jump(a, b) == IF Max2(a, b) = 0 THEN << 0, 1 >> ELSE << Abs(a - b), Max2(a, b) >>
Larger(x, y) == IF x[1] * y[2] >= y[1] * x[2] THEN x ELSE y
RECURSIVE LargestOf(_)
LargestOf(S) == IF S = {} THEN << 0, 1 >> ELSE LET x == CHOOSE x \in S : TRUE IN Larger(x, LargestOf(S \ {x}))
PseudoGradient(g, M, val(_, _), o, i) ==
   LargestOf({ Jump(val(o, i), val(t[1], t[2])) : t \in UNION { CellNeighbour(g, M, o, i, f)[2] : f \in FaceDirs(g) } })
(* 2^dim times the value of the cell of the same size next to a cell: mean of smaller cells, copy at walls *)
SameSizeValue(g, M, val(_, _), o, i, f) ==
  LET n == CellNeighbour(g, M, o, i, f)
      W == WrapX(g, o[1], << GCell(g, o, i)[1] + f[1], GCell(g, o, i)[2] + f[2], GCell(g, o, i)[3] + f[3] >>)
      one(t) == (2 ^ g.dim) * val(t[1], t[2])
  IN IF n[1] = 4 THEN one(<< o, i >>)
     ELSE IF n[1] # 2 THEN one(CHOOSE t \in n[2] : TRUE)
     ELSE LET S == { LET Y == << 2 * W[1] + b[1], 2 * W[2] + b[2], IF g.dim = 3 THEN 2 * W[3] + b[3] ELSE 0 >>
                     IN << OctOfG(g, o[1] + 1, Y), InBlock(g, Y) >> : b \in Bits(g) }
              v(t) == val(t[1], t[2]) IN SumSet(v, S)
(* |l + r - 2c| / (|r - c| + |l - c| + 0.01 (|l| + |r| + 2|c|)) *)
Curvature(l, c, r) == << 100 * Abs(l + r - 2 * c), 100 * (Abs(r - c) + Abs(l - c)) + l + r + 2 * c >>
Unit(k, x) == << IF k = 1 THEN x ELSE 0, IF k = 2 THEN x ELSE 0, IF k = 3 THEN x ELSE 0 >>
Curvatures(g, M, val(_, _), o, i) ==
   { Curvature(SameSizeValue(g, M, val, o, i, Unit(k, -1)), (2 ^ g.dim) * val(o, i), SameSizeValue(g, M, val, o, i, Unit(k, 1))) : k \in Dims(g) }
Clamped(g, o, m) == IF m = 1 /\ o[1] >= g.lmax THEN 0 ELSE IF m = -1 /\ o[1] <= g.lmin THEN 0 ELSE m
(* ---------------- conservation and symmetries of the update kernels ---------------- *)
OneLevel(M) == Cardinality({ o[1] : o \in M }) <= 1
ConservativeAnyMesh == {"HydroUpdate_hancock_oneneighbor", "HydroUpdate_euler", "HydroUpdate_RK2", "MHDUpdate_hancock_oneneighbor", "MHDUpdate_euler",
  "MHDUpdate_RK2", "GLMMHDUpdate_euler", "GLMMHDUpdate_RK2", "parabolic:thermal_conduction"}
Walled(g) == \E d \in Dims(g) : g.per[d] = 0
(* fields whose integral over the domain does not change in a step *)
Conserved(g, M, m, wall, fields) ==
  LET all == RangeOf(fields) \ {"psi"} IN
  IF m = "parabolic:thermal_conduction" THEN all
  ELSE IF ~Walled(g) THEN IF OneLevel(M) \/ m \in ConservativeAnyMesh THEN all ELSE IF m = "parabolic:viscosity" THEN {"rho"} ELSE {}
  ELSE IF wall # "reflecting" THEN {}
  ELSE CASE m \in {"HydroUpdate_hancock_oneneighbor", "HydroUpdate_euler", "HydroUpdate_RK2"} -> {"rho", "e_tot"}
         [] m = "HydroUpdate_legacy" -> IF OneLevel(M) THEN {"rho", "e_tot"} ELSE {}
         [] m \in {"MHDUpdate_hancock_oneneighbor", "MHDUpdate_euler", "MHDUpdate_RK2", "GLMMHDUpdate_euler", "GLMMHDUpdate_RK2"} -> {"rho"}
         [] OTHER -> {}

(* the box and the mesh are invariant under: axis d becomes axis perm[d], mirrored when flip[d] = 1 *)
BoxInvariant(g, perm, dx) == \A d \in Dims(g) : LET q == perm[d] + 1 IN
  g.cgs[q] = g.cgs[d] /\ g.per[q] = g.per[d] /\ g.b[q] = g.b[d] /\ dx[q] = dx[d]
OctWidth(g, d, l) == g.cgs[d] * 2 ^ (l - g.lmin)
Image(g, perm, flip, o) ==
  LET from(q) == CHOOSE d \in 1..3 : perm[d] + 1 = q
      x(q) == LET d == from(q) IN IF d \notin Dims(g) THEN o[1 + d] ELSE IF flip[d] = 1 THEN OctWidth(g, d, o[1]) - 1 - o[1 + d] ELSE o[1 + d]
  IN << o[1], x(1), x(2), x(3) >>
MeshInvariant(g, M, perm, flip) == { Image(g, perm, flip, o) : o \in M } = M
(* fields the symmetry is claimed for: the damping of psi is applied axis by axis *)
Symmetric(m, perm, fields) ==
  LET p == perm # << 0, 1, 2 >> IN
  IF m = "GLMMHDUpdate_euler" /\ p THEN RangeOf(fields) \ {"psi_next"}
  ELSE IF m = "GLMMHDUpdate_RK2" /\ p THEN {}
  ELSE RangeOf(fields)
(* ---------------- self gravity: the discrete Poisson equation (cubic cells) ---------------- *)
(* 4 times the mean over the neighbouring region times 3 / distance (in cell sizes): << weight, 4 * mean - as a sum >> *)
Face(g, M, phi(_, _), o, i, f) ==
  LET n == CellNeighbour(g, M, o, i, f) IN
  IF n[2] = {} THEN << 3, 0 >>
  ELSE LET t == CHOOSE t \in n[2] : TRUE IN
       IF t[1][1] = o[1] THEN << 3, 4 * phi(t[1], t[2]) >>
       ELSE IF t[1][1] < o[1] THEN << 2, 4 * phi(t[1], t[2]) >>
       ELSE LET v(x) == phi(x[1], x[2]) IN << 4, SumSet(v, n[2]) * (4 \div Cardinality(n[2])) >>
OutsideFace(g, M, o, i, f) == CellNeighbour(g, M, o, i, f)[2] = {}
(* 4 * weight * (phi of the neighbour - phi): zero through an absorbing wall, the potential vanishes outside the other walls *)
FaceDiff(g, M, phi(_, _), wall, o, i, f) ==
  IF OutsideFace(g, M, o, i, f) /\ wall = "absorbing" THEN 0
  ELSE LET x == Face(g, M, phi, o, i, f) IN x[1] * (x[2] - 4 * phi(o, i))
TotalMass(g, M, rho(_, _)) ==
  LET c(o) == LET v(k) == rho(o, CellAt(g, k)) IN SumSet(v, 1..NCells(g)) * 2 ^ (g.dim * (g.lmax - o[1])) IN SumSet(c, M)
FinestCells(g) == LET w(d) == OctWidth(g, d, g.lmax) * B(g, d) IN Prod(w, 1, g.dim)
(* ---------------- time step limits (16 times the inverse of the largest step over the CFL factor) ---------------- *)
Sqrt(n) == CHOOSE r \in 0..n : r * r = n
(* 4 times the inverse of the width of a cell; the domain has length 2^len, -2 <= len <= 2 *)
InvWidth4(g, o, len, d) == (OctWidth(g, d, o[1]) * B(g, d) * 4 * (IF len[d] < 0 THEN 2 ^ (0 - len[d]) ELSE 1)) \div (IF len[d] > 0 THEN 2 ^ len[d] ELSE 1)
(* state of a cell: velocity, speed of sound, Alfven speed and direction of the magnetic field *)
HydroLimit(g, o, len, x) == LET f(d) == (Abs(x[d]) + x[4]) * InvWidth4(g, o, len, d) * 4 IN SumSet(f, Dims(g))
FastSpeed(x, d) == IF x[6] = d THEN Max2(x[4], x[5]) ELSE Sqrt(x[4] * x[4] + x[5] * x[5])
FastLimit(g, o, len, x) == MaxOf({ (Abs(x[d]) + FastSpeed(x, d)) * InvWidth4(g, o, len, d) * 4 : d \in Dims(g) })
ParabolicLimit(g, o, len, k) == MaxOf({ k * InvWidth4(g, o, len, d) * InvWidth4(g, o, len, d) : d \in Dims(g) })
ParticleLimit(g, M, len, p) == LET o == HomeOct(g, M, << p[1], p[2], p[3] >>) IN
   Sqrt(p[4] * p[4] + p[5] * p[5] + p[6] * p[6]) * MaxOf({ InvWidth4(g, o, len, d) : d \in Dims(g) }) * 4
===============================================================================
