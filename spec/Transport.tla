------------------------------- MODULE Transport -------------------------------
(***************************************************************************)
(* Kernels on states for which the exact result is known (gamma = 2, states *)
(* are integers << density, velocity (3), pressure >>):                     *)
(*  - a flow that is supersonic in every direction, with the same sign        *)
(*    everywhere: every face flux is the flux of the upwind side, whatever    *)
(*    the Riemann solver;                                                    *)
(*  - conduction of heat, cooling of the outer layers, gravity on a uniform  *)
(*    flow, the field of a point mass.                                       *)
(***************************************************************************)
EXTENDS Initial

AllPeriodic(g) == \A d \in Dims(g) : g.per[d] = 1
OnlyOf(S) == CHOOSE x \in S : TRUE
(* level difference to the neighbours n: bigger 1, same 0, smaller -1 *)
LevelDiff(o, n) == o[1] - OnlyOf(n[2])[1][1]
(* the next cell of the same octant *)
Further(t, f) == << t[1], << t[2][1] + f[1], t[2][2] + f[2], t[2][3] + f[3] >> >>
SumOver(S, w(_)) == SumSet(w, S)
Sign(x) == IF x < 0 THEN -1 ELSE 1

(* first order: the fluxes of the upwind cells.  Twice the flux in direction d of component c (mass, momentum, energy) *)
Flux2(x, d, c) == CASE c = 1 -> 2 * x[1] * x[1 + d]
                    [] c = 5 -> x[1 + d] * (4 * x[5] + x[1] * (x[2] * x[2] + x[3] * x[3] + x[4] * x[4]))
                    [] OTHER -> 2 * x[1] * x[1 + d] * x[c] + (IF c = 1 + d THEN 2 * x[5] ELSE 0)
(* 32 times the rate of change *)
UpwindRate(g, M, len, st(_, _), o, i, c) ==
  LET x == st(o, i)
      one(d) == LET s == Sign(x[1 + d])  n == CellNeighbour(g, M, o, i, Unit(d, 0 - s))
                    w(t) == Flux2(st(t[1], t[2]), d, c)
                IN s * ((SumOver(n[2], w) * 4) \div Cardinality(n[2]) - 4 * Flux2(x, d, c)) * InvWidth4(g, o, len, d)
  IN SumSet(one, Dims(g))

(* second order, for the density of a flow of uniform velocity and pressure: linear reconstruction with the smallest of the
   two slopes; distances between centres and from the centre to the face depend on the levels.
   Values are in units of 1 / (48 * 2 ^ dim) *)
MinMod(a, b) == IF a = 0 \/ b = 0 \/ Sign(a) # Sign(b) THEN 0 ELSE IF Abs(a) > Abs(b) THEN b ELSE a
InvNear(ld) == CASE ld = -1 -> 16 [] ld = 0 -> 12 [] OTHER -> 8       (* 12 / distance between the two centres *)
InvFar(ld) == CASE ld = -1 -> 24 [] ld = 0 -> 12 [] OTHER -> 6        (* 12 / distance between the two centres behind *)
ToFace(ld) == CASE ld = -1 -> 1 [] ld = 0 -> 2 [] OTHER -> 4          (* 4 * distance from the centre of the neighbour to the face *)
(* 4 times the density at the face in direction f: of the neighbour, of the cell itself *)
FaceOfNeighbour(g, M, rho(_, _), o, i, f) ==
  LET K == 2 ^ g.dim  n == CellNeighbour(g, M, o, i, f)  ld == LevelDiff(o, n)  C == K * rho(o, i)
      one(t) == LET L == K * rho(t[1], t[2])
                    LL == IF ld = 0 THEN SameSizeValue(g, M, rho, o, i, << 2 * f[1], 2 * f[2], 2 * f[3] >>) ELSE LET u == Further(t, f) IN K * rho(u[1], u[2])
                IN 48 * L + ToFace(ld) * MinMod((C - L) * InvNear(ld), (L - LL) * InvFar(ld))
  IN (SumOver(n[2], one) * 4) \div Cardinality(n[2])
FaceOfCell(g, M, rho(_, _), o, i, f) ==
  LET K == 2 ^ g.dim  n == CellNeighbour(g, M, o, i, f)  ld == LevelDiff(o, n)  C == K * rho(o, i)
      b == << 0 - f[1], 0 - f[2], 0 - f[3] >>
      up == SameSizeValue(g, M, rho, o, i, b)
      one(t) == LET R == K * rho(t[1], t[2]) IN
                48 * C + 2 * MinMod((R - C) * InvNear(ld), (C - up) * (IF ld = -1 THEN InvNear(LevelDiff(o, CellNeighbour(g, M, o, i, b))) ELSE 12))
  IN (SumOver(n[2], one) * 4) \div Cardinality(n[2])
MassRate(g, M, len, st(_, _), o, i) ==
  LET x == st(o, i)  rho(p, j) == st(p, j)[1]
      one(d) == LET s == Sign(x[1 + d]) IN
        (FaceOfNeighbour(g, M, rho, o, i, Unit(d, 0 - s)) - FaceOfCell(g, M, rho, o, i, Unit(d, s))) * Abs(x[1 + d]) * InvWidth4(g, o, len, d)
  IN SumSet(one, Dims(g))

(* heat: 2 * 12 * 16 times the rate; the conductivity of a layer is that of the coarsest cells, faces take the mean *)
Kappa(g, e, o) == IF e.layer = 0 THEN e.kappa
  ELSE LET z == o[1 + g.dim] \div 2 ^ (o[1] - g.lmin) IN e.kappa * (IF z >= e.z1 /\ z < e.z2 THEN e.K1 ELSE e.K2)
HeatRate(g, M, e, st(_, _), o, i) ==
  LET T(p, j) == st(p, j)[5] \div st(p, j)[1]
      k == Kappa(g, e, o)
      face(f) == LET n == CellNeighbour(g, M, o, i, f) IN
                 IF n[2] = {} THEN 0
                 ELSE LET w(t) == (k + Kappa(g, e, t[1])) * (T(t[1], t[2]) - T(o, i))
                      IN SumOver(n[2], w) * (InvNear(LevelDiff(o, n)) \div Cardinality(n[2]))
      one(d) == (face(Unit(d, -1)) + face(Unit(d, 1))) * InvWidth4(g, o, e.len, d) * InvWidth4(g, o, e.len, d)
  IN SumSet(one, Dims(g))

(* cooling: energy flows out through the first row of cells along the last direction and in through the last *)
CoolRate(g, e, o, i) ==
  LET d == g.dim  q == o[1 + d] * B(g, d) + i[d]  w == InvWidth4(g, o, e.len, d) IN
  IF q = 0 THEN 0 - e.flux * w ELSE IF q = OctWidth(g, d, o[1]) * B(g, d) - 1 THEN e.flux * w ELSE 0

(* gravity on a uniform flow: 128 times the rates for a step of 1/64 *)
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
GravityEnergies(x, a) == LET w == 128 * x[1] * Dot(<< x[2], x[3], x[4] >>, a) IN { w, w + x[1] * Dot(a, a), w + 2 * x[1] * Dot(a, a) }

(* squared distance to the point mass, softened, in finest half cells *)
PointDistance(g, e, o, i, d) == (2 * (o[1 + d] * B(g, d) + i[d]) + 1) * Scale(g, o) - e.pm[d]
PointSquare(g, e, o, i) == LET y(d) == PointDistance(g, e, o, i, d) * PointDistance(g, e, o, i, d) IN SumSet(y, Dims(g)) + e.soft * e.soft
================================================================================
