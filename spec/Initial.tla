------------------------------ MODULE Initial ------------------------------
(***************************************************************************)
(* The initial state.  An analytical problem is a predicate "this cell has   *)
(* to be refined" and a value for a cell.  Starting from the coarse mesh,    *)
(* every level asks its octants (one cell is enough) and adapts; the fields  *)
(* are then the values of the cells of the resulting mesh.                   *)
(***************************************************************************)
EXTENDS Phys

NAt(g, d, l) == Cnt(g, d, l) * B(g, d)
(* centre of a cell, in halves of a finest cell *)
HalfPos(g, o, i, d) == (2 * (o[d + 1] * B(g, d) + i[d]) + 1) * Scale(g, o)

RECURSIVE Refined(_, _, _, _)
Refined(g, M, wants(_), l) == IF l >= g.lmax THEN M
   ELSE Refined(g, TLCEval(AdaptMesh(g, M, TLCEval([ o \in M |-> IF wants(o) THEN 1 ELSE 0 ]))), wants, l + 1)

(* ---- the problem "points": the neighbourhood of some points is refined, each to its depth ---- *)
PointsWant(g, pts, o) == \E c \in 1..NCells(g) : LET i == CellAt(g, c) IN
   \E p \in RangeOf(pts) : o[1] < p[4] /\ \A d \in Dims(g) : Abs(HalfPos(g, o, i, d) - p[d]) < Scale(g, o)
PointsVelocity(g, o, i) == LET h(d) == IF d > g.dim THEN 0 ELSE HalfPos(g, o, i, d) IN
   << ((h(1) + 2 * h(2) + 4 * h(3)) % 15) - 7, ((3 * h(1) + h(2) + 2 * h(3)) % 13) - 6, IF g.dim = 3 THEN ((h(1) + h(2) + 3 * h(3)) % 11) - 5 ELSE 0 >>
PointsValue(g, o, i) == LET h(d) == IF d > g.dim THEN 0 ELSE HalfPos(g, o, i, d)  v == PointsVelocity(g, o, i)  r == 1 + (o[1] % 2) IN
   << r, r * v[1], r * v[2], r * v[3], 1 + h(1) + h(2) + h(3) + 1000 * o[1] >>

(* ---- problems with two states, separated by a surface.  Positions in units of 1 / U of the (unit) domain ---- *)
Lcm(a, b) == IF a % b = 0 THEN a ELSE CHOOSE n \in 1..(a * b) : n % a = 0 /\ n % b = 0 /\ \A k \in 1..(n - 1) : ~(k % a = 0 /\ k % b = 0)
UnitOf(g, q) == LET u(d) == Lcm(NAt(g, d, g.lmax), q[d]) IN 2 * Lcm(Lcm(u(1), u(2)), IF g.dim = 3 THEN u(3) ELSE 1)
Quads(g, e) == IF "bnx" \in DOMAIN e THEN << e.bnx, e.bny, IF g.dim = 3 THEN e.bnz ELSE 1 >> ELSE << 1, 1, 1 >>
Trunc(a, b) == IF a < 0 THEN 0 - ((0 - a) \div b) ELSE a \div b
Inside(g, e, U, X) ==
  CASE e.module = "sod" -> 7 * X[1] < e.radius * U
    [] e.module = "implode" -> 7 * X[2] < 7 * X[1] - e.radius * U
    [] e.module = "rayleigh_taylor" -> 7 * X[g.dim] < e.radius * U
    [] OTHER -> LET q == Quads(g, e)
                    \* a ball in every quadrant: centre in 1/14, radius in sqrt(7)/28 of a quadrant
                    off(d) == 14 * X[d] - (14 * Trunc(X[d] * q[d], U) + e.centre[d]) * (U \div q[d])
                    mx == MaxOf({ q[d] : d \in Dims(g) })
                    sq(d) == off(d) * off(d) * mx * mx
                IN /\ \A d \in Dims(g) : Abs(off(d)) * mx <= 2 * e.radius * U
                   /\ SumSet(sq, Dims(g)) * 4 < 7 * e.radius * e.radius * U * U
Rho(g, e, U, X) == IF Inside(g, e, U, X) THEN e.rin ELSE e.rout
Pres(g, e, U, X) == IF e.module = "rayleigh_taylor" THEN e.pin ELSE IF Inside(g, e, U, X) THEN e.pin ELSE e.pout
(* normalised second difference above the limit *)
Curved(a, b, c, emax) == 10000 * Abs(a + c - 2 * b) > emax * (100 * (Abs(a - b) + Abs(c - b)) + Abs(a) + Abs(c) + 2 * Abs(b))
CentreU(g, U, o, i) == [ d \in 1..3 |-> IF d > g.dim THEN 0 ELSE HalfPos(g, o, i, d) * (U \div (2 * NAt(g, d, g.lmax))) ]
StatesWant(g, e, U, o) == \E c \in 1..NCells(g) :
  LET i == CellAt(g, c)  X == TLCEval(CentreU(g, U, o, i))
      w(d) == 2 * Scale(g, o) * (U \div (2 * NAt(g, d, g.lmax)))
      off(d, s) == [ X EXCEPT ![d] = @ + s * w(d) ]
  IN IF e.module = "sod" THEN 10 * Abs(7 * X[1] - e.radius * U) < 77 * w(1)
     ELSE \E d \in Dims(g) : \/ Curved(Rho(g, e, U, off(d, -1)), Rho(g, e, U, X), Rho(g, e, U, off(d, 1)), e.emax)
                             \/ Curved(Pres(g, e, U, off(d, -1)), Pres(g, e, U, X), Pres(g, e, U, off(d, 1)), e.emax)
StatesValue(g, e, U, o, i) == LET X == TLCEval(CentreU(g, U, o, i))  p == Pres(g, e, U, X)  r == Rho(g, e, U, X) IN
  CASE e.module = "MHD_blast" -> << r, 0, 0, 0, p + (e.B * e.B) \div 2, e.B, 0, 0 >>
    [] e.module = "MHD_blast_glm" -> << r, 0, 0, 0, p + (e.B * e.B) \div 2, e.B, 0, 0, 0 >>
    [] OTHER -> << r, 0, 0, 0, p >>
FieldsOf(m) == {"rho", "rho_vx", "rho_vy", "rho_vz", "e_tot"} \cup (IF m \in {"MHD_blast", "MHD_blast_glm"} THEN {"Bx", "By", "Bz"} ELSE {})
               \cup (IF m = "MHD_blast_glm" THEN {"psi"} ELSE {})

InitialMesh(g, M, e) == IF e.module = "points" THEN LET w(o) == PointsWant(g, e.points, o) IN Refined(g, M, w, g.lmin)
                        ELSE LET U == UnitOf(g, Quads(g, e))  w(o) == StatesWant(g, e, U, o) IN Refined(g, M, w, g.lmin)
InitialValue(g, e, o, i) == IF e.module = "points" THEN PointsValue(g, o, i) ELSE StatesValue(g, e, UnitOf(g, Quads(g, e)), o, i)

(* ---- particles, in units of 1/64 of the domain ---- *)
Finest(g, x, d) == (x * NAt(g, d, g.lmax)) \div 64
OctAt(g, M, x) == CHOOSE o \in M : \A d \in Dims(g) : LET w == B(g, d) * Scale(g, o) IN o[d + 1] * w <= Finest(g, x[d], d) /\ Finest(g, x[d], d) < (o[d + 1] + 1) * w
CellIn(g, o, x) == [ d \in 1..3 |-> IF d > g.dim THEN 0 ELSE (Finest(g, x[d], d) - o[d + 1] * B(g, d) * Scale(g, o)) \div Scale(g, o) ]
GridParticle(g, M, e, k) ==
  LET n == e.grid
      at == << k % n[1], (k \div n[1]) % n[2], k \div (n[1] * n[2]) >>
      x == [ d \in 1..3 |-> IF d > g.dim THEN 0 ELSE (2 * at[d] + 1) * (32 \div n[d]) ]
      o == OctAt(g, M, x)
      v == PointsVelocity(g, o, CellIn(g, o, x))
      y == [ d \in 1..3 |-> (x[d] + v[d] * e.pert + 64) % 64 ]
  IN << y[1], y[2], y[3], v[1], v[2], v[3], e.m >>
Nth(s, k) == IF k <= Len(s) THEN s[k] ELSE 0
InitialParticles(g, M, e) == IF e.module = "particle_grid" THEN [ k \in 1..(e.grid[1] * e.grid[2] * e.grid[3]) |-> GridParticle(g, M, e, k - 1) ]
   ELSE [ k \in 1..e.npart |-> << Nth(e.lpx, k), Nth(e.lpy, k), Nth(e.lpz, k), Nth(e.lvx, k), Nth(e.lvy, k), Nth(e.lvz, k), Nth(e.lmass, k) >> ]
Occurs(s, x) == Cardinality({ k \in DOMAIN s : s[k] = x })
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in RangeOf(s) : Occurs(s, x) = Occurs(t, x)
=============================================================================
