------------------------------- MODULE Octree -------------------------------
(***************************************************************************)
(* The octree forest of Dyablo as mathematics: octants, adjacency, tiling,  *)
(* 2:1 balance, adaptation, space-filling-curve order and partitions.       *)
(*                                                                          *)
(* A geometry is a record g = [dim, cgs, lmin, lmax, per]:                  *)
(*   dim  2 or 3;  cgs  number of level-lmin octants in each direction;     *)
(*   lmin, lmax  level bounds;  per  1 where the direction is periodic.     *)
(* An octant is <<l, x, y, z>>: level and logical position at that level    *)
(* (z = 0 in 2D); it covers [x, x+1) * 2^(lmax-l) finest octants, etc.      *)
(* A mesh is a finite set of octants.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Abs(a) == IF a < 0 THEN -a ELSE a
RangeOf(s) == { s[i] : i \in DOMAIN s }

Cnt(g, d, l) == IF d > g.dim THEN 1 ELSE g.cgs[d] * (2 ^ (l - g.lmin))
Dims(g) == 1..g.dim

Parent(o) == << o[1] - 1, o[2] \div 2, o[3] \div 2, o[4] \div 2 >>
(* ancestor of o at level l (o itself when it is not finer than l) *)
Anc(o, l) == IF o[1] <= l THEN o
             ELSE LET f == 2 ^ (o[1] - l) IN << l, o[2] \div f, o[3] \div f, o[4] \div f >>
Bits(g) == IF g.dim = 2 THEN { <<a, b, 0>> : a \in 0..1, b \in 0..1 }
           ELSE { <<a, b, c>> : a \in 0..1, b \in 0..1, c \in 0..1 }
Child(o, b) == << o[1] + 1, 2 * o[2] + b[1], 2 * o[3] + b[2], 2 * o[4] + b[3] >>
Children(g, o) == { Child(o, b) : b \in Bits(g) }
Siblings(g, o) == Children(g, Parent(o))
Offsets(g) == { d \in (-1..1) \X (-1..1) \X (IF g.dim = 3 THEN -1..1 ELSE {0}) : d # <<0, 0, 0>> }

InRange(g, o) == /\ o[1] >= g.lmin
                 /\ \A d \in 1..3 : o[d + 1] >= 0 /\ o[d + 1] < Cnt(g, d, o[1])

(*************************** adjacency **************************************)
(* the same-size position in direction d lies outside the domain *)
Out(g, o, d) == \E k \in Dims(g) : /\ g.per[k] = 0
                                   /\ \/ o[k + 1] + d[k] < 0
                                      \/ o[k + 1] + d[k] >= Cnt(g, k, o[1])
Shift(g, o, d) == << o[1], (o[2] + d[1]) % Cnt(g, 1, o[1]),
                           (o[3] + d[2]) % Cnt(g, 2, o[1]),
                           (o[4] + d[3]) % Cnt(g, 3, o[1]) >>
(* the children of the position in direction d that touch o: those on its side *)
FacingBits(g, d) == { b \in Bits(g) : \A k \in Dims(g) : (d[k] = 1 => b[k] = 0) /\ (d[k] = -1 => b[k] = 1) }

(* the octants of a balanced mesh M that touch o in direction d *)
Touching(g, M, o, d) ==
  IF Out(g, o, d) THEN {}
  ELSE LET n == Shift(g, o, d) IN
       IF n \in M THEN {n}
       ELSE IF Parent(n) \in M THEN {Parent(n)}
       ELSE { c \in { Child(n, b) : b \in FacingBits(g, d) } : c \in M }

Neighbours(g, M) == TLCEval([ o \in M |-> UNION { Touching(g, M, o, d) : d \in Offsets(g) } ])

(* the same notion from pure box geometry (definition the fast one is checked against) *)
Scale(g, o) == 2 ^ (g.lmax - o[1])
AxisTouch(g, k, a, b, d, wa, wb) ==   \* closed boxes touch along axis k with b on side d of a (0: overlapping interiors)
  LET a0 == a * wa  a1 == (a + 1) * wa  b0 == b * wb  b1 == (b + 1) * wb  n == Cnt(g, k, g.lmax)
      hit(s) == IF d = 0 THEN b0 + s < a1 /\ a0 < b1 + s
                ELSE IF d = 1 THEN b0 + s = a1 ELSE b1 + s = a0
  IN hit(0) \/ (g.per[k] = 1 /\ (hit(n) \/ hit(-n)))
(* b touches a in direction d, d being understood relative to the same-size cell next to a *)
GeoTouchingSet(g, M, o, d) ==
  { n \in M : \A k \in 1..3 : IF k > g.dim THEN TRUE
      ELSE LET w == Scale(g, o)  v == Scale(g, n) IN
           \* in direction d the octant has to meet the closed same-size box there and touch o
           IF d[k] = 0 THEN AxisTouch(g, k, o[k + 1], n[k + 1], 0, w, v)
           ELSE LET p == o[k + 1] + d[k]
                    m == Cnt(g, k, g.lmax)
                    ov(s) == n[k + 1] * v + s < (p + 1) * w /\ p * w < (n[k + 1] + 1) * v + s
                    tc(s) == IF d[k] = 1 THEN n[k + 1] * v + s <= (o[k + 1] + 1) * w /\ (n[k + 1] + 1) * v + s >= (o[k + 1] + 1) * w
                             ELSE (n[k + 1] + 1) * v + s >= o[k + 1] * w /\ n[k + 1] * v + s <= o[k + 1] * w
                IN \E s \in (IF g.per[k] = 1 THEN {0, m, -m} ELSE {0}) : ov(s) /\ tc(s) }

(************************** tiling and balance ******************************)
RECURSIVE SumSeq(_, _, _)
SumSeq(f(_), s, i) == IF i > Len(s) THEN 0 ELSE f(s[i]) + SumSeq(f, s, i + 1)
RECURSIVE SumSet(_, _)
SumSet(f(_), S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f(x) + SumSet(f, S \ {x})

LevelsOk(g, M) == \A o \in M : o[1] >= g.lmin /\ o[1] <= g.lmax
(* the volumes add up to that of the coarsest grid: from the finest level upwards, 2^dim octants make one of the level above *)
RECURSIVE Volume(_, _, _, _)
Volume(g, n, l, carry) == LET c == n[l] + carry IN
  IF l = g.lmin THEN c = g.cgs[1] * g.cgs[2] * (IF g.dim = 3 THEN g.cgs[3] ELSE 1)
  ELSE c % (2 ^ g.dim) = 0 /\ Volume(g, n, l - 1, c \div (2 ^ g.dim))
VolumesAddUp(g, M) == Volume(g, TLCEval([ l \in g.lmin..g.lmax |-> Cardinality({ o \in M : o[1] = l }) ]), g.lmax, 0)
(* covers the domain exactly once: everything in range, nothing nested, volumes add up *)
Tiling(g, M) == /\ \A o \in M : InRange(g, o) /\ o[1] <= g.lmax
                /\ \A o \in M : \A l \in g.lmin..(o[1] - 1) : Anc(o, l) \notin M
                /\ VolumesAddUp(g, M)
(* octants touching by face, edge or corner differ by at most one level *)
Balanced(g, M) == \A o \in M : \A d \in Offsets(g) : ~Out(g, o, d) =>
                    LET n == Shift(g, o, d) IN
                    \/ n \in M \/ Parent(n) \in M
                    \/ { Child(n, b) : b \in FacingBits(g, d) } \subseteq M

CoarseMesh(g) == { o \in { <<g.lmin, x, y, z>> : x \in 0..(g.cgs[1] - 1), y \in 0..(g.cgs[2] - 1),
                           z \in 0..(IF g.dim = 3 THEN g.cgs[3] - 1 ELSE 0) } : TRUE }

(**************************** adaptation ************************************)
(* markers m \in [M -> {-1,0,1}].  The final markers are the least ones above the request such that
   families coarsen together and neighbours stay within one level. *)
Step(g, M, nb, m) ==
  [ o \in M |->
     LET base == IF m[o] = -1 /\ \E s \in Siblings(g, o) : s \notin M \/ (s \in M /\ m[s] # -1) THEN 0 ELSE m[o]
     IN MaxOf({base} \cup { n[1] + m[n] - 1 - o[1] : n \in nb[o] }) ]
RECURSIVE FixP(_, _, _, _)
FixP(g, M, nb, m) == LET n == TLCEval(Step(g, M, nb, m)) IN IF n = m THEN m ELSE FixP(g, M, nb, n)
FinalMarkers(g, M, m) == FixP(g, M, Neighbours(g, M), m)
Apply(g, M, f) == UNION { IF f[o] = 1 THEN Children(g, o) ELSE IF f[o] = -1 THEN {Parent(o)} ELSE {o} : o \in M }
AdaptMesh(g, M, m) == Apply(g, M, FinalMarkers(g, M, m))
GlobalRefine(g, M) == UNION { Children(g, o) : o \in M }

(* octant of the old mesh that a new octant comes from: <<"same"|"refined"|"coarsened", octants>> *)
Origin(g, old, o) == IF o \in old THEN <<"same", {o}>>
                     ELSE IF Parent(o) \in old THEN <<"refined", {Parent(o)}>>
                     ELSE <<"coarsened", Children(g, o)>>
(* who owns it after an adaptation: owner of the octant it comes from / of the first child *)
AdaptOwner(g, old, own, o) == IF o \in old THEN own[o]
                              ELSE IF Parent(o) \in old THEN own[Parent(o)] ELSE own[Child(o, <<0, 0, 0>>)]

(********************* space filling curve and partitions *******************)
RECURSIVE Spread(_)
Spread(n) == IF n = 0 THEN 0 ELSE (n % 2) + 8 * Spread(n \div 2)
SpreadTable == TLCEval([ n \in 0..255 |-> Spread(n) ])
Chunk(o, w, n) == LET c(x) == ((x * w) \div n) % 256 IN SpreadTable[c(o[2])] + 2 * SpreadTable[c(o[3])] + 4 * SpreadTable[c(o[4])]
Key(g, o) == LET w == Scale(g, o) IN Chunk(o, w, 1)        \* domains of up to 256 finest octants per axis
(* a comes before b on the curve: eight bits of the coordinates at a time, from the highest (up to 2^24 per axis) *)
Before(g, a, b) == LET v == Scale(g, a)  w == Scale(g, b)
                       x == Chunk(a, v, 65536)  y == Chunk(b, w, 65536) IN
  IF x # y THEN x < y ELSE LET x2 == Chunk(a, v, 256)  y2 == Chunk(b, w, 256) IN
  IF x2 # y2 THEN x2 < y2 ELSE Chunk(a, v, 1) < Chunk(b, w, 1)
SortedByCurve(g, s) == \A i \in 1..(Len(s) - 1) : Before(g, s[i], s[i + 1])

RECURSIVE Flatten(_, _)
Flatten(ss, i) == IF i > Len(ss) THEN << >> ELSE ss[i] \o Flatten(ss, i + 1)

(* group of the octant at index i of the sorted sequence s, at compaction L: [first, last] indices *)
Group(g, s, i, L) == LET a == Anc(s[i], g.lmax - L)
                         S == { j \in 1..Len(s) : Anc(s[j], g.lmax - L) = a }
                     IN << CHOOSE j \in S : \A k \in S : j <= k, CHOOSE j \in S : \A k \in S : j >= k >>
(* the partition the balancing computes: starts[r] for ranks 1..P (1-based indices) *)
RECURSIVE CutLevel(_, _, _, _, _)
CutLevel(g, s, i, L, prev) == LET a == Group(g, s, i, L)[1] IN IF a > prev \/ L = 0 THEN a ELSE CutLevel(g, s, i, L - 1, prev)
RECURSIVE Cuts(_, _, _, _, _)
Cuts(g, s, P, L, acc) == IF Len(acc) = P THEN acc
   ELSE LET r == Len(acc)  ideal == ((Len(s) * r) \div P) + 1
        IN Cuts(g, s, P, L, Append(acc, CutLevel(g, s, ideal, L, acc[r])))
Partition(g, s, P, L) == LET c == Cuts(g, s, P, L, <<1>>) IN
   [ r \in 1..P |-> SubSeq(s, c[r], IF r = P THEN Len(s) ELSE c[r + 1] - 1) ]
=============================================================================
