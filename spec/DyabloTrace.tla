----------------------------- MODULE DyabloTrace -----------------------------
(***************************************************************************)
(* Conformance: a recorded behaviour of the real code (trace.ndjson, one    *)
(* event per public operation with the projected global state after it) is  *)
(* accepted iff every event is a step of the specification as far as the    *)
(* property Prop is concerned.  The abstract state is always bound to the   *)
(* recorded one, so that a step violating another property cannot hide or   *)
(* provoke an alarm on this one.                                            *)
(***************************************************************************)
EXTENDS Transport, Json
CONSTANT Prop

Trace == ndJsonDeserialize("trace.ndjson")

VARIABLES l,      \* next line
          g,      \* geometry (plus np, b, F)
          s       \* last observed state
vars == << l, g, s >>

(* a named part of a step: says which part failed when a line is rejected *)
Part(n, b) == IF b THEN TRUE ELSE (PrintT(<<"REJECTED", Prop, l, n>>) /\ FALSE)
Has(e, k) == k \in DOMAIN e

Geo(e) == [dim |-> e.dim, cgs |-> e.cgs, lmin |-> e.lmin, lmax |-> e.lmax, per |-> e.per, np |-> e.np, b |-> e.b, F |-> e.F]
AllSeq(own) == Flatten(own, 1)
SetOf(own) == UNION { RangeOf(own[r]) : r \in DOMAIN own }
OwnerFn(own) == TLCEval([ o \in SetOf(own) |-> CHOOSE r \in DOMAIN own : o \in RangeOf(own[r]) ])
NoDup(q) == Cardinality(RangeOf(q)) = Len(q)
MarkSeq(e) == Flatten(e.marks, 1)
MarkFn(M, e) == LET q == MarkSeq(e)
                    S == { << <<q[i][1], q[i][2], q[i][3], q[i][4]>>, q[i][5]>> : i \in DOMAIN q }
                    D == { p[1] : p \in S }
                    f == TLCEval([ o \in D |-> (CHOOSE p \in S : p[1] = o)[2] ])
                IN TLCEval([ o \in M |-> IF o \in D THEN f[o] ELSE 0 ])

MeshOps == {"adapt", "grefine", "lb", "adaptmap", "lbdata", "init"}

(* ---------------- C01: valid distributed mesh ---------------- *)
C01(e) == LET all == AllSeq(e.own)  M == SetOf(e.own) IN
  /\ Part("every octant has one owner", NoDup(all))
  /\ Part("tiling", Tiling(g', M))
  /\ Part("levels", LevelsOk(g', M))
  /\ Part("2:1 balance", Balanced(g', M))
  /\ Has(e, "n") => /\ Part("local counts", \A r \in DOMAIN e.own : e.n[r] = Len(e.own[r]))
                    /\ Part("global count", \A r \in DOMAIN e.own : e.gn[r] = Len(all))

(* ---------------- C02: adaptation = least fixpoint ---------------- *)
NewMesh(e) == LET M == SetOf(s.own) IN
  IF e.op = "grefine" \/ (e.op = "adaptmap" /\ e.global = 1) THEN GlobalRefine(g, M) ELSE AdaptMesh(g, M, MarkFn(M, e))
C02(e) == IF e.op = "init" THEN Part("initial mesh", SetOf(e.own) = CoarseMesh(g'))
          ELSE IF e.op \in {"adapt", "adaptmap", "grefine"} THEN Part("adapted mesh", SetOf(e.own) = NewMesh(e))
          ELSE TRUE

(* ---------------- C03: load balance ---------------- *)
Starts(own) == LET P == Len(own) IN [ r \in 1..P |-> 1 + Len(Flatten(SubSeq(own, 1, r - 1), 1)) ]
CutOk(S, P, L, st, r) ==   \* r in 2..P: where the r-th process starts
  LET ideal == ((Len(S) * (r - 1)) \div P) + 1
      grp == Group(g', S, ideal, L)
      aligned == st[r] > Len(S) \/ Group(g', S, st[r], L)[1] = st[r]
  IN /\ st[r] >= grp[1] /\ st[r] <= grp[2] + 1
     /\ ~aligned => (grp[1] <= st[r - 1])
C03(e) ==
  LET S == AllSeq(e.own)  P == Len(e.own) IN
  /\ e.op \in {"lb", "lbdata"} => Part("same mesh, one owner each", NoDup(S) /\ SetOf(e.own) = SetOf(s.own))
  /\ Part("contiguous intervals of the curve in rank order", SortedByCurve(g', S))
  /\ Has(e, "gid") => Part("global numbering",
        LET st == Starts(e.own) IN \A r \in 1..P : \A i \in 1..Len(e.own[r]) : e.gid[r][i] = st[r] + i - 2)
  /\ e.op \in {"lb", "lbdata"} /\ Len(S) >= P =>
       LET st == Starts(e.own) IN
       /\ Part("no empty process", \A r \in 1..P : Len(e.own[r]) > 0)
       /\ Part("fair, family-coherent cuts", \A r \in 2..P : CutOk(S, P, e.compact, st, r))

(* ---------------- C04: ghost layer ---------------- *)
GhostSet(own, nb, r) == { n \in UNION { nb[o] : o \in RangeOf(own[r]) } : n \notin RangeOf(own[r]) }
C04(e) ==
  /\ Has(e, "gh") =>
      LET nb == Neighbours(g', SetOf(e.own)) IN
      /\ Part("each ghost once", \A r \in DOMAIN e.gh : NoDup(e.gh[r]))
      /\ Part("ghosts are the touching remote octants", \A r \in DOMAIN e.gh : RangeOf(e.gh[r]) = GhostSet(e.own, nb, r))
      /\ Has(e, "ngl") => Part("announced ghost count", \A r \in DOMAIN e.gh : e.ngl[r] = Len(e.gh[r]))
  /\ e.op = "tags" =>
      /\ Part("the owner sends what the ghost stands for", \A r \in DOMAIN e.gh :
           /\ Len(e.tags[r]) = Len(e.gh[r])
           /\ \A i \in 1..Len(e.gh[r]) : LET t == e.tags[r][i] IN
                /\ << t[2], t[3], t[4], t[5] >> = e.gh[r][i]
                /\ e.gh[r][i] \in RangeOf(e.own[t[1] + 1]))

(* ---------------- C05: queries ---------------- *)
Facing6(gg) == { d \in Offsets(gg) : Cardinality({ k \in 1..3 : d[k] # 0 }) = 1 }
C05(e) ==
  /\ e.op = "query" =>
      LET M == SetOf(e.own)  own == OwnerFn(e.own) IN
      /\ Part("neighbours", \A r \in DOMAIN e.own : \A i \in DOMAIN e.own[r] :
           LET o == e.own[r][i]  row == e.nb[r][i] IN
           /\ { << x[1], x[2], x[3] >> : x \in RangeOf(row) } = Offsets(g)
           /\ \A k \in DOMAIN row : LET x == row[k]  d == << x[1], x[2], x[3] >> IN
                /\ (x[4] = 1) = Out(g, o, d)
                /\ LET T == { << y[1], y[2], y[3], y[4] >> : y \in RangeOf(x[5]) } IN
                   /\ T = Touching(g, M, o, d)
                   /\ Cardinality(T) = Len(x[5])
                   /\ \A y \in RangeOf(x[5]) : (y[5] = 1) = (own[<< y[1], y[2], y[3], y[4] >>] # r))
      /\ Part("positions, sizes and levels", \A r \in DOMAIN e.own :
           /\ Len(e.geo[r]) >= Len(e.own[r])
           /\ \A i \in DOMAIN e.geo[r] : LET q == e.geo[r][i] IN
                /\ q[4] = 1 /\ q[2] = q[3] /\ q[2] \in M
                /\ (q[1] = 0) = (i <= Len(e.own[r]))
                /\ q[1] = 0 => q[2] = e.own[r][i])
      /\ Part("domain bound", \A r \in DOMAIN e.own : \A i \in DOMAIN e.own[r] :
           (e.geo[r][i][5] = 1) = \E d \in Facing6(g) : Out(g, e.own[r][i], d))
  /\ e.op = "points" =>
      LET own == OwnerFn(s.own)  M == SetOf(s.own) IN
      Part("point location", \A r \in DOMAIN e.pts : \A i \in DOMAIN e.pts[r] :
        LET p == e.pts[r][i]
            C == { o \in M : \A d \in Dims(g) : p[1][d] \div (g.F * Scale(g, o)) = o[d + 1] }
            o == CHOOSE o \in C : TRUE
        IN /\ Cardinality(C) = 1 => (/\ p[2] = own[o] - 1
                                     /\ (p[2] = r - 1) => (p[3] = o /\ p[4] = 0)))

(* ---------------- stored data: common projections ---------------- *)
OctRow(e, rows, o) == LET r == CHOOSE r \in DOMAIN e.own : o \in RangeOf(e.own[r])
                          i == CHOOSE i \in DOMAIN e.own[r] : e.own[r][i] = o IN rows[r][i]
ColsSet(e) == RangeOf(e.fn)
(* the registry as a map from names to arrays: name -> rank -> octant -> cells *)
FieldMap(e, rows) == [ n \in ColsSet(e) |-> LET k == Idx(e.fn, n) IN [ r \in DOMAIN rows |-> [ i \in DOMAIN rows[r] |-> rows[r][i][k] ] ] ]
FMap(e) == TLCEval(FieldMap(e, e.fv))
GMap(e) == IF Has(e, "gv") THEN TLCEval(FieldMap(e, e.gv)) ELSE << >>
Restrict(m, S) == [ n \in DOMAIN m \cap S |-> m[n] ]
AllZero(col) == \A r \in DOMAIN col : \A i \in DOMAIN col[r] : \A c \in DOMAIN col[r][i] : col[r][i][c] = 0
ByName(names, w, n) == LET k == Idx(names, n) IN [ r \in DOMAIN w |-> [ i \in DOMAIN w[r] |-> w[r][i][k] ] ]

(* ---------------- C06: ghost exchange ---------------- *)
GhostNear(own, nb, r, q) == nb[q] \cap RangeOf(own[r])
GhostOk(e, nb, r, gi, c) ==   \* cell c of the gi-th ghost octant of r has to be filled
  e.impl = "full" \/ Within(g, e.gh[r][gi], CellAt(g, c), GhostNear(e.own, nb, r, e.gh[r][gi]), e.gc)
(* only a depth that does not fit in the block may be refused *)
RefusedDepth(e) == e.ref = 1 => Part("a depth that fits in the block is not refused", e.gc > g.b[1] \/ e.gc > g.b[2])
C06(e) ==
  /\ e.op \in {"xchg", "axchg"} => RefusedDepth(e)
  /\ e.op = "xchg" /\ e.ref = 1 => Part("a refused exchange has no effect", e.fv = s.fv /\ e.gv = s.gv)
  /\ e.op = "xchg" /\ e.ref = 0 =>
     LET nb == Neighbours(g, SetOf(e.own))
         old == FMap(s)
         src == RowOf(e.own, s.fv)
         X == { k \in DOMAIN e.fn : e.fn[k] \in RangeOf(e.names) }
     IN /\ Part("same fields", e.fn = s.fn)
        /\ Part("owned cells keep their values", e.fv = s.fv)
        /\ Part("ghost cells get the owner's values", \A r \in DOMAIN e.gh : \A gi \in DOMAIN e.gh[r] :
             e.gh[r][gi] \in DOMAIN src =>
             \A c \in 1..NCells(g) : GhostOk(e, nb, r, gi, c) =>
                \A k \in X : e.gv[r][gi][k][c] = src[e.gh[r][gi]][k][c])
        /\ Part("fields that are not exchanged keep their ghost values", \A r \in DOMAIN e.gh : \A gi \in DOMAIN e.gh[r] :
             \A k \in DOMAIN e.fn \ X : e.gv[r][gi][k] = s.gv[r][gi][k])
  /\ e.op = "axchg" /\ e.ref = 0 =>
     LET nb == Neighbours(g, SetOf(e.own))
         src == RowOf(e.own, e.u0)
     IN /\ Part("owned cells keep their values", e.u1 = e.u0)
        /\ Part("ghost cells get the owner's values", \A r \in DOMAIN e.gh : \A gi \in DOMAIN e.gh[r] :
             e.gh[r][gi] \in DOMAIN src =>
             \A c \in 1..NCells(g) : GhostOk(e, nb, r, gi, c) =>
                \A k \in 1..e.nf : e.g1[r][gi][k][c] = src[e.gh[r][gi]][k][c])

(* ---------------- C07: ghost reduction ---------------- *)
(* copies of octant o: <<rank, ghost index>> *)
Copies(e, o) == UNION { { << r, gi >> : gi \in { j \in DOMAIN e.gh[r] : e.gh[r][j] = o } } : r \in DOMAIN e.gh }
RECURSIVE SumCopies(_, _, _, _)
SumCopies(gv, S, k, c) == IF S = {} THEN 0 ELSE LET p == CHOOSE p \in S : TRUE IN gv[p[1]][p[2]][k][c] + SumCopies(gv, S \ {p}, k, c)
(* n: how often the reduction was done *)
ReduceOk(e, u0, g0, u1, K, n) ==
  \A r \in DOMAIN e.own : \A i \in DOMAIN e.own[r] :
     LET S == TLCEval(Copies(e, e.own[r][i])) IN
     \A k \in K : \A c \in 1..NCells(g) : u1[r][i][k][c] = u0[r][i][k][c] + n * SumCopies(g0, S, k, c)
C07(e) ==
  /\ e.op \in {"reduce", "areduce"} => RefusedDepth(e)
  /\ e.op = "reduce" /\ e.ref = 1 => Part("a refused reduction has no effect", e.fv = s.fv)
  /\ e.op = "reduce" /\ e.ref = 0 =>
     LET X == { k \in DOMAIN e.fn : e.fn[k] \in RangeOf(e.names) } IN
     /\ Part("same fields", e.fn = s.fn)
     /\ Part("every contribution added once", ReduceOk(e, s.fv, s.gv, e.fv, X, e.times))
     /\ Part("other fields unchanged", \A r \in DOMAIN e.own : \A i \in DOMAIN e.own[r] : \A k \in DOMAIN e.fn \ X : e.fv[r][i][k] = s.fv[r][i][k])
  /\ e.op = "areduce" /\ e.ref = 0 => Part("every contribution added once", ReduceOk(e, e.u0, e.g0, e.u1, 1..e.nf, 1))

(* ---------------- C08: field registry ---------------- *)
C08(e) ==
  IF ~Has(e, "fn") THEN TRUE ELSE
  IF e.op = "init" THEN Part("starts empty", e.fn = << >>) ELSE
  LET old == FMap(s)  new == FMap(e)  go == GMap(s)  gn == GMap(e)
      D == DOMAIN old
      same == new = old /\ gn = go
      refusal == IF Has(e, "ref") THEN e.ref = 1 ELSE FALSE
      K(S) == Restrict(new, S) = Restrict(old, S) /\ Restrict(gn, S) = Restrict(go, S)
  IN
  /\ Part("names listed once, counts exact", NoDup(e.fn) /\ \A r \in DOMAIN e.fc : e.fc[r] = Len(e.fn))
  /\ CASE e.op = "newf" -> LET N == RangeOf(e.names) IN
            IF N \cap D # {} THEN /\ Part("duplicate name refused", refusal)
                                  /\ Part("a refused request leaves the registry as it was", same)
            ELSE /\ Part("valid request accepted", ~refusal)
                 /\ Part("new names listed", DOMAIN new = D \cup N)
                 /\ Part("existing fields keep their values", K(D))
                 /\ Part("new fields start at zero", \A n \in N : AllZero(new[n]))
       [] e.op = "setf" -> LET N == RangeOf(e.names) IN
            /\ Part("names unchanged", DOMAIN new = D)
            /\ Part("other fields keep their values", K(D \ N) /\ gn = go)
            /\ Part("values written are read back", \A n \in N : new[n] = ByName(e.names, e.w, n))
       [] e.op = "movef" ->
            IF e.src \notin D THEN /\ Part("unknown source refused", refusal)
                                   /\ Part("a refused request leaves the registry as it was", same)
            ELSE /\ Part("valid request accepted", ~refusal)
                 /\ Part("names after a move", DOMAIN new = (D \ {e.src}) \cup {e.dest})
                 /\ Part("a moved field keeps its values", new[e.dest] = old[e.src] /\ (go # << >> => gn[e.dest] = go[e.src]))
                 /\ Part("other fields keep their values", K(D \ {e.src, e.dest}))
       [] e.op = "delf" -> /\ Part("names after a deletion", DOMAIN new = D \ {e.name})
                           /\ Part("other fields keep their values", K(D \ {e.name}))
       [] e.op = "hasf" -> /\ Part("has_field", (e.res = 1) = (e.name \in D)) /\ Part("unchanged", same)
       [] e.op = "getf" -> /\ Part("unknown field refused", refusal = (e.name \notin D)) /\ Part("unchanged", same)
                           /\ ~refusal => Part("copy of the field", e.res = old[e.name])
       [] e.op = "acc" -> /\ Part("unknown field refused", refusal = ~(RangeOf(e.names) \subseteq D)) /\ Part("unchanged", same)
                          /\ ~refusal => Part("accessor reads the named fields", \A n \in RangeOf(e.names) :
                                ByName(e.names, e.byid, n) = old[n] /\ ByName(e.names, e.bypos, n) = old[n])
       [] e.op = "reallocf" -> /\ Part("names unchanged", DOMAIN new = D)
                               /\ Part("the backup holds the old values", \A n \in D : ByName(e.names, e.old, n) = old[n])
       [] e.op = "extendf" -> Part("unchanged", new = old /\ Restrict(gn, D) = Restrict(go, D))
       [] e.op \in {"adaptmap", "lbdata"} -> Part("names unchanged", DOMAIN new = D)
       [] e.op \in {"xchg", "reduce", "ghostset"} -> Part("names unchanged", DOMAIN new = D)
       [] OTHER -> Part("unchanged", same)

(* ---------------- C09: load balancing with data ---------------- *)
PArr(e) == { e.pa[k].name : k \in DOMAIN e.pa }
PRec(e, n) == LET k == CHOOSE k \in DOMAIN e.pa : e.pa[k].name = n IN e.pa[k]
SameParticles(e) == /\ Part("same particle arrays and attributes", PArr(e) = PArr(s) /\ \A n \in PArr(e) : PRec(e, n).at = PRec(s, n).at)
                    /\ Part("same particles", \A n \in PArr(e) : LET a == Flatten(PRec(e, n).v, 1)  b == Flatten(PRec(s, n).v, 1) IN
                              Len(a) = Len(b) /\ BagOf(a) = BagOf(b))
OnOwner(e) == Part("particles are on the owner of their octant", \A n \in PArr(e) : LET v == PRec(e, n).v IN
                \A r \in DOMAIN v : \A i \in DOMAIN v[r] : \E o \in RangeOf(e.own[r]) : Contains(g, o, v[r][i]))
C09(e) == e.op = "lbdata" =>
  /\ Part("same fields", e.fn = s.fn)
  /\ Part("every octant keeps its cell values", Table(e.own, e.fv) = Table(s.own, s.fv))
  /\ SameParticles(e) /\ OnOwner(e)

(* ---------------- C10: remapping after an adaptation ---------------- *)
RECURSIVE SumCells(_, _, _)
SumCells(src, k, S) == IF S = {} THEN 0 ELSE LET p == CHOOSE p \in S : TRUE IN src[p[1]][k][CellNo(g, p[2])] + SumCells(src, k, S \ {p})
C10(e) == e.op = "adaptmap" =>
  LET old == SetOf(s.own)  src == RowOf(s.own, s.fv)  K == DOMAIN e.fn
      row(o, r, i) == e.fv[r][i]
  IN /\ Part("same fields", e.fn = s.fn)
     /\ Part("transfer", \A r \in DOMAIN e.own : \A i \in DOMAIN e.own[r] : LET o == e.own[r][i]  v == e.fv[r][i] IN
          IF o \in old THEN v = src[o]
          ELSE IF Parent(o) \in old THEN \A k \in K : \A c \in 1..NCells(g) :
                  LET p == RefinedFrom(g, o, CellAt(g, c)) IN v[k][c] = src[p[1]][k][CellNo(g, p[2])]
          ELSE IF Children(g, o) \subseteq old THEN \A k \in K : \A c \in 1..NCells(g) :
                  (2 ^ g.dim) * v[k][c] = SumCells(src, k, CoarsenedFrom(g, o, CellAt(g, c)))
          ELSE TRUE)

(* ---------------- C11: particle redistribution ---------------- *)
C11(e) == e.op \in {"dist", "lbdata"} \/ (e.op = "adaptmap" /\ e.dist = 1) =>
  /\ SameParticles(e)
  /\ (IF e.op = "dist" THEN e.array = "*" ELSE TRUE) => OnOwner(e)
  /\ e.op = "dist" /\ e.array # "*" =>
       /\ Part("unknown array refused", (e.ref = 1) = (e.array \notin PArr(s)))
       /\ e.ref = 0 => Part("particles are on the owner of their octant", LET v == PRec(e, e.array).v IN
            \A r \in DOMAIN v : \A i \in DOMAIN v[r] : \E o \in RangeOf(e.own[r]) : Contains(g, o, v[r][i]))
       /\ Part("other arrays untouched", \A n \in PArr(s) \ {e.array} : PRec(e, n) = PRec(s, n))

(* ---------------- C12: particle arrays and attributes ---------------- *)
(* array -> [pos: rank -> i -> position, at: attribute -> rank -> i -> value] *)
PMap(e) == TLCEval([ n \in PArr(e) |-> LET p == PRec(e, n) IN
   [ pos |-> [ r \in DOMAIN p.v |-> [ i \in DOMAIN p.v[r] |-> SubSeq(p.v[r][i], 1, 3) ] ],
     at |-> [ a \in RangeOf(p.at) |-> LET k == Idx(p.at, a) + 3 IN [ r \in DOMAIN p.v |-> [ i \in DOMAIN p.v[r] |-> p.v[r][i][k] ] ] ] ] ])
Col(names, w, n) == LET k == Idx(names, n) IN [ r \in DOMAIN w |-> [ i \in DOMAIN w[r] |-> w[r][i][k] ] ]
C12(e) ==
  IF ~Has(e, "pa") THEN TRUE ELSE
  IF e.op = "init" THEN Part("starts empty", e.pa = << >>) ELSE
  LET old == PMap(s)  new == PMap(e)  D == DOMAIN old
      known == IF Has(e, "array") THEN e.array \in D ELSE FALSE
      A == IF known THEN DOMAIN old[e.array].at ELSE {}
      refusal == IF Has(e, "ref") THEN e.ref = 1 ELSE FALSE
      others == known /\ DOMAIN new = D /\ \A n \in D \ {e.array} : new[n] = old[n]
      mine(f) == others /\ new[e.array] = [ pos |-> old[e.array].pos, at |-> f ]
      Ref(ok) == /\ Part("refused iff invalid", refusal = ~ok)
                 /\ ~ok => Part("a refused request has no effect", new = old)
  IN
  /\ Part("names listed once", NoDup([ k \in DOMAIN e.pa |-> e.pa[k].name ]) /\ \A k \in DOMAIN e.pa : NoDup(e.pa[k].at))
  /\ CASE e.op = "newpa" -> LET ok == e.array \notin D IN
            /\ Ref(ok)
            /\ ok => Part("new array", /\ DOMAIN new = D \cup {e.array} /\ \A n \in D : new[n] = old[n]
                                       /\ new[e.array].at = << >>
                                       /\ \A r \in DOMAIN e.cnt : Len(PRec(e, e.array).v[r]) = e.cnt[r])
       [] e.op = "newat" -> LET ok == known /\ e.name \notin A IN
            /\ Ref(ok)
            /\ ok => Part("new attribute", mine([ a \in A \cup {e.name} |-> IF a \in A THEN old[e.array].at[a]
                                               ELSE [ r \in DOMAIN old[e.array].pos |-> [ i \in DOMAIN old[e.array].pos[r] |-> 0 ] ] ]))
       [] e.op = "setat" -> Part("written attribute", mine([ a \in A |-> IF a = e.name THEN e.w ELSE old[e.array].at[a] ]))
       [] e.op = "movepos" -> Part("moved particles", others /\ new[e.array] = [ pos |-> e.w, at |-> old[e.array].at ])
       [] e.op = "mvat" -> LET ok == known /\ e.src \in A IN
            /\ Ref(ok)
            /\ ok => Part("moved attribute", mine([ a \in (A \ {e.src}) \cup {e.dest} |-> IF a = e.dest THEN old[e.array].at[e.src] ELSE old[e.array].at[a] ]))
       [] e.op = "delat" -> /\ Part("refused iff unknown array", known => ~refusal)
                            /\ ~known => Part("unknown array refused", refusal /\ new = old)
                            /\ known => Part("deleted attribute", mine([ a \in A \ {e.name} |-> old[e.array].at[a] ]))
       [] e.op = "getat" -> LET ok == known /\ e.name \in A IN
            /\ Part("refused iff unknown", refusal = ~ok) /\ Part("unchanged", new = old)
            /\ ok => Part("copy of the attribute", e.res = old[e.array].at[e.name])
       [] e.op = "hasp" -> Part("existence queries", new = old /\ (e.ra = 1) = known /\ (e.rn = 1) = (known /\ e.name \in A))
       [] e.op = "pacc" -> LET ok == known /\ RangeOf(e.names) \subseteq A IN
            /\ Part("refused iff unknown", refusal = ~ok) /\ Part("unchanged", new = old)
            /\ ok => Part("accessor reads the named attributes", \A n \in RangeOf(e.names) :
                  Col(e.names, e.byid, n) = old[e.array].at[n] /\ Col(e.names, e.bypos, n) = old[e.array].at[n])
       [] e.op \in {"dist", "lbdata", "adaptmap"} -> Part("same names", DOMAIN new = D /\ \A n \in D : DOMAIN new[n].at = DOMAIN old[n].at)
       [] OTHER -> Part("unchanged", new = old)

(* ---------------- C13: loops over cells, geometry, neighbours ---------------- *)
CellRow(o, i, gh) == LET w == Scale(g, o)  X == GCell(g, o, i)
                         c(d) == IF d <= g.dim THEN (2 * X[d] + 1) * w ELSE 0
                         z(d) == IF d <= g.dim THEN w ELSE 0
                     IN << o[1], o[2], o[3], o[4], i[1], i[2], i[3], gh, c(1), c(2), c(3), z(1), z(2), z(3) >>
CellRows(octs, gh) == { CellRow(o, CellAt(g, c), gh) : o \in RangeOf(octs), c \in 1..NCells(g) }
OnceEach(rows, octs, gh) == Len(rows) = Len(octs) * NCells(g) /\ RangeOf(rows) = CellRows(octs, gh)
RECURSIVE SumRow(_, _)
SumRow(q, i) == IF i > Len(q) THEN 0 ELSE q[i] + SumRow(q, i + 1)
OctT(t) == << t[1], t[2], t[3], t[4] >>
TargetSet(ts) == { << OctT(ts[k]), << ts[k][5], ts[k][6], ts[k][7] >> >> : k \in DOMAIN ts }
AllSub(o, W) == { LET Y == << 2 * W[1] + b[1], 2 * W[2] + b[2], IF g.dim = 3 THEN 2 * W[3] + b[3] ELSE 0 >>
                  IN << OctOfG(g, o[1] + 1, Y), InBlock(g, Y) >> : b \in Bits(g) }
(* further than one cell away, the smaller cells are represented by any one of them *)
TargetOk(e, own, r, M, o, i, f, t) ==
  LET want == CellNeighbour(g, M, o, i, f) IN
  /\ t[1] = want[1]
  /\ IF t[1] = 4 THEN LET bc == BoundaryCell(g, o, i, f) IN
          /\ OctT(t[2][1]) = bc[1] /\ << t[2][1][5], t[2][1][6], t[2][1][7] >> = bc[2]
          /\ << t[2][2], t[2][3], t[2][4] >> = bc[3]
     ELSE /\ IF t[1] = 2 /\ \E d \in Dims(g) : Abs(f[d]) > 1
             THEN Len(t[2]) = 1 /\ TargetSet(t[2]) \subseteq AllSub(o, WrapX(g, o[1], << GCell(g, o, i)[1] + f[1], GCell(g, o, i)[2] + f[2], GCell(g, o, i)[3] + f[3] >>))
             ELSE TargetSet(t[2]) = want[2] /\ Len(t[2]) = Cardinality(want[2])
          /\ \A k \in DOMAIN t[2] : (t[2][k][8] = 1) = (own[OctT(t[2][k])] # r)
(* the smaller cells of a ghosted block are named by one of them: the first one of the ghost cell ("ghost") or
   the first one touching the block ("neighbor") *)
FirstOf(S) == CHOOSE p \in S : \A q \in S : \A d \in 1..3 : p[1][d + 1] * B(g, d) + p[2][d] <= q[1][d + 1] * B(g, d) + q[2][d]
GhostTarget(M, o, i, conv) ==
  LET q == << Clamp(i[1], B(g, 1)), Clamp(i[2], B(g, 2)), Clamp(i[3], B(g, 3)) >>
      f == << i[1] - q[1], i[2] - q[2], i[3] - q[3] >>
      n == CellNeighbour(g, M, o, q, f)
  IN IF n[1] # 2 THEN n
     ELSE LET W == WrapX(g, o[1], GCell(g, o, i)) IN << 2, { FirstOf(IF conv = "ghost" THEN AllSub(o, W) ELSE n[2]) } >>
C13(e) ==
  /\ e.op = "cells" =>
     /\ Part("cell loop visits each owned cell once, with its geometry", \A r \in DOMAIN e.own : OnceEach(e.vis[r], e.own[r], 0))
     /\ Part("ghost loop visits each ghost cell once, with its geometry", \A r \in DOMAIN e.own : OnceEach(e.gvis[r], e.gh[r], 1))
     /\ Part("patch loop visits each owned cell once, with its geometry", \A r \in DOMAIN e.own : OnceEach(e.pvis[r], e.own[r], 0))
     /\ Part("reductions count each owned cell once", \A r \in DOMAIN e.own : LET v == Flatten(e.val[r], 1) IN
          /\ e.red[r][1] = Len(e.own[r]) * NCells(g)
          /\ e.red[r][2] = SumRow(v, 1)
          /\ e.red[r][3] = MaxOf({-1} \cup RangeOf(v)))
     /\ Part("cell counts", \A r \in DOMAIN e.own : e.nc[r] = Len(e.own[r]) * NCells(g) /\ e.ncg[r] = Len(AllSeq(e.own)) * NCells(g))
  /\ e.op = "nbcells" =>
     LET M == SetOf(e.own)  own == OwnerFn(e.own) IN
     Part("neighbour cells", \A r \in DOMAIN e.own : \A i \in DOMAIN e.own[r] : LET o == e.own[r][i] IN
        \A c \in DOMAIN e.nb[r][i] : \A k \in DOMAIN e.off : TargetOk(e, own, r, M, o, CellAt(g, c), e.off[k], e.nb[r][i][c][k]))
  /\ e.op = "patchghost" =>
     LET M == SetOf(e.own)  own == OwnerFn(e.own) IN
     /\ Part("each cell of the ghosted block once", \A r \in DOMAIN e.own :
          LET K == { SubSeq(e.m[r][j], 1, 7) : j \in DOMAIN e.m[r] }
              gz == IF g.dim = 3 THEN e.g ELSE 0
          IN /\ Cardinality(K) = Len(e.m[r])
             /\ K = { << o[1], o[2], o[3], o[4], i, j, k >> : o \in RangeOf(e.own[r]), i \in (-e.g)..(g.b[1] + e.g - 1),
                                                              j \in (-e.g)..(g.b[2] + e.g - 1), k \in (-gz)..(BZ(g) + gz - 1) })
     /\ Part("what it stands for", \A r \in DOMAIN e.own : \A j \in DOMAIN e.m[r] : LET x == e.m[r][j]
            o == OctT(x)  i == << x[5], x[6], x[7] >>  t == x[8]  want == GhostTarget(M, o, i, e.conv) IN
            /\ t[1] = want[1]
            /\ t[1] = 4 => LET bc == BoundaryCell(g, o, i, << 0, 0, 0 >>) IN
                 OctT(t[2][1]) = bc[1] /\ << t[2][1][5], t[2][1][6], t[2][1][7] >> = bc[2] /\ << t[2][2], t[2][3], t[2][4] >> = bc[3]
            /\ t[1] # 4 => TargetSet(t[2]) = want[2] /\ \A k \in DOMAIN t[2] : (t[2][k][8] = 1) = (own[OctT(t[2][k])] # r))
     /\ Part("inner cells", \A r \in DOMAIN e.own : /\ Len(e.inner[r]) = Len(e.own[r]) * NCells(g)
          /\ \A j \in DOMAIN e.inner[r] : LET x == e.inner[r][j] IN << x[5], x[6], x[7] >> = << x[8], x[9], x[10] >>)
  /\ e.op = "cellpos" =>
     LET M == SetOf(e.own)  own == OwnerFn(e.own) IN
     Part("the cell of a position", \A r \in DOMAIN e.pts : \A j \in DOMAIN e.pts[r] :
        LET p == e.pts[r][j][1]  t == e.pts[r][j][2]  o == OctT(t) IN
        /\ o \in M /\ own[o] = r /\ t[8] = 0
        /\ \A d \in Dims(g) : p[d] \div (2 * Scale(g, o)) = o[d + 1] * g.b[d] + t[4 + d])

(* ---------------- C14: generic exchange ---------------- *)
RECURSIVE Incoming(_, _, _)
Incoming(e, r, src) == IF src > e.np THEN << >> ELSE [ k \in DOMAIN e.send[src][r] |-> << src - 1, e.send[src][r][k] >> ] \o Incoming(e, r, src + 1)
VcRow(e, p) == [ x \in 1..(e.a * e.bb) |-> p[1] * 1000000 + p[2] * 1000 + ((x - 1) \div e.bb) * 10 + ((x - 1) % e.bb) ]
VcCopies(e, key) == { p \in UNION { { << d, k >> : k \in DOMAIN e.out[d] } : d \in 1..e.np } : e.out[p[1]][p[2]][1] = key }
RECURSIVE VcAdd(_, _, _)
VcAdd(e, S, x) == IF S = {} THEN 0 ELSE LET p == CHOOSE p \in S : TRUE IN e.gh[p[1]][p[2]][x] + VcAdd(e, S \ {p}, x)
C14(e) == e.op = "vc" =>
  /\ Part("announced counts", \A r \in 1..e.np : e.cnt[r] = Len(Incoming(e, r, 1)) /\ Len(e.out[r]) = e.cnt[r])
  /\ Part("elements received once, grouped by source, in order", \A r \in 1..e.np : LET w == Incoming(e, r, 1) IN
       IF e.kind = "domains"
       THEN LET got == [ k \in DOMAIN e.out[r] |-> e.out[r][k][1] ] IN
            /\ \A k \in 1..(Len(got) - 1) : got[k] \div 1000000 <= got[k + 1] \div 1000000
            /\ RangeOf(e.out[r]) = { VcRow(e, w[k]) : k \in DOMAIN w }
            /\ NoDup(got)
       ELSE \A k \in DOMAIN w : e.out[r][k] = VcRow(e, w[k]))
  /\ Part("the source is not modified", \A r \in 1..e.np : \A k \in DOMAIN e.in[r] : e.in[r][k] = VcRow(e, << r - 1, k - 1 >>))
  /\ e.red # << >> => Part("reduction", \A r \in 1..e.np : \A k \in DOMAIN e.in[r] :
       LET S == TLCEval(VcCopies(e, e.in[r][k][1])) IN
       \A x \in 1..(e.a * e.bb) : e.red[r][k][x] = e.in[r][k][x] + e.times * VcAdd(e, S, x))

(* ---------------- C23: particles and the mesh ---------------- *)
KindOf(e) == IF e.module = "ParticleUpdate_CIC_density" THEN "CIC" ELSE "NGP"
C23(e) ==
  /\ e.op = "deposit" =>
     LET M == SetOf(e.own)  ps == Flatten(e.p, 1)
         D == Deposit(g, M, ps, KindOf(e))
         got(r, i, c) == e.mass[r][i][c]
         want(o, c) == LET i == CellAt(g, c)  k == << o, << i[1], i[2], i[3] >> >> IN IF k \in DOMAIN D THEN D[k] ELSE 0
     IN /\ Part("the gas density is left alone", \A r \in DOMAIN e.same : e.same[r] = 1)
        /\ Part("every cell receives its share of every particle", \A r \in DOMAIN e.own : \A i \in DOMAIN e.own[r] :
             \A c \in 1..NCells(g) : got(r, i, c) = want(e.own[r][i], c))
        /\ Part("the mass of the particles is conserved (specification)", LET f(k) == D[k]  sum == SumSet(f, DOMAIN D)  all == SumMass(ps, 1) * Denom(g) IN
             IF \A d \in Dims(g) : g.per[d] = 1 THEN sum = all ELSE sum <= all)
  /\ e.op = "pmove" =>
     LET M == SetOf(e.own)  src == RowOf(e.own, e.v)
         acc(p, d) == LET f(o, i) == src[o][d][CellNo(g, i)] IN Gather(f, Shares(g, M, p, e.kind), 0)
         vel(p, d) == LET o == HomeOct(g, M, p)  c == CellNo(g, HomeCell(g, o, p)) IN (4 \div src[o][1][c]) * src[o][1 + d][c]
     IN Part("particles follow the field of their cloud", \A r \in DOMAIN e.p : \A j \in DOMAIN e.p[r] :
          LET x == e.p[r][j]  p == << x[1], x[2], x[3] >> IN
          /\ x[6] = 1
          /\ \A d \in Dims(g) : IF e.kind = "tracers" THEN x[4][d] = 0 /\ x[5][d] = vel(p, d)
                                 ELSE LET a == acc(p, d) IN x[4][d] = a /\ x[5][d] = a)

(* ---------------- C22: refinement criteria ---------------- *)
(* markers of the cells of octant o: a set of << marker, tie? >> *)
C22Marks(e, M, src, D, o) ==
  LET rho(p, i) == src[p][1][CellNo(g, i)]
      last(p, i) == src[p][Len(src[p])][CellNo(g, i)] \div 2
      one(n, m) == << Judge(n, m, e.hi, e.lo, e.q), Tie(n, m, e.hi, e.lo, e.q) >>
      w == 2 ^ (g.dim * (g.lmax - o[1]))
  IN { LET i == CellAt(g, c) IN
       CASE e.module = "RefineCondition_mass" ->
              (IF e.dens = "none" THEN LET m == 2 * rho(o, i) * w IN << IF m > 2 * e.hi + 1 THEN 1 ELSE IF m <= 2 * e.lo + 1 THEN -1 ELSE 0, FALSE >>
               ELSE LET k == << o, << i[1], i[2], i[3] >> >>
                        m == 2 * (rho(o, i) * w * Denom(g) + (IF k \in DOMAIN D THEN D[k] ELSE 0))
                        H == (2 * e.hi + 1) * Denom(g)  L == (2 * e.lo + 1) * Denom(g)
                    IN << IF m > H THEN 1 ELSE IF m <= L THEN -1 ELSE 0, m = H \/ m = L >>)
         [] e.module = "RefineCondition_pseudo_gradient" -> LET x == PseudoGradient(g, M, rho, o, i) IN << Judge(x[1], x[2], e.hi, e.lo, e.q), FALSE >>
         [] e.module = "RefineCondition_downflows" -> << Judge(e.sign * src[o][2][CellNo(g, i)], rho(o, i), e.hi, e.lo, e.q), FALSE >>
         [] OTHER -> LET S == Curvatures(g, M, rho, o, i) \cup Curvatures(g, M, last, o, i)
                     IN << MaxOf({ Judge(x[1], x[2], e.hi, e.lo, e.q) : x \in S }), \E x \in S : x[2] > 0 /\ x[1] > 0 /\ Tie(x[1], x[2], e.hi, e.lo, e.q) >>
       : c \in 1..NCells(g) }
C22(e) == e.op = "mark" =>
  LET M == SetOf(s.own)  src == RowOf(s.own, e.v)
      D == IF e.dens = "none" THEN << >> ELSE Deposit(g, M, Flatten(e.p, 1), e.dens)
      marks == TLCEval([ o \in M |-> C22Marks(e, M, src, D, o) ])
      want == TLCEval([ o \in M |-> Clamped(g, o, MaxOf({ x[1] : x \in marks[o] })) ])
  IN (\E o \in M : \E x \in marks[o] : x[2]) \/ Part("the mesh the criterion asks for", SetOf(e.own) = AdaptMesh(g, M, want))

(* ---------------- C21: conservation ---------------- *)
Close(x, y, t) == x - y <= t /\ y - x <= t
C21(e) == e.op = "hydro" =>
  LET M == SetOf(s.own) IN
  /\ Part("totals of the conserved fields", \A i \in DOMAIN e.fields : e.fields[i] \in Conserved(g, M, e.module, e.wall, e.fields) => Close(e.t0[i], e.t1[i], 2))
  /\ e.uniform = 1 /\ (e.wall = "absorbing" \/ ~Walled(g)) => Part("a uniform flow stays uniform", \A i \in DOMAIN e.fields : e.dev[i] <= 2)

(* ---------------- C25: symmetries ---------------- *)
C25(e) == e.op = "sym" =>
  LET M == SetOf(s.own) IN
  BoxInvariant(g, e.perm, e.dx) /\ MeshInvariant(g, M, e.perm, e.flip) =>
    /\ Part("the mesh is the image of itself", e.missing = 0)
    /\ Part("the step commutes with the symmetry", \A i \in DOMAIN e.fields : e.fields[i] \in Symmetric(e.module, e.perm, e.fields) => e.dev[i] <= IF e.module = "GravitySolver_cg" THEN 200 ELSE 2)

(* ---------------- C26: self gravity ---------------- *)
C26(e) == e.op = "poisson" =>
  LET M == SetOf(s.own)
      R == RowOf(s.own, e.rho)  P == RowOf(s.own, e.phi)  G == RowOf(s.own, e.g)
      rho(o, i) == R[o][CellNo(g, i)]  phi(o, i) == P[o][CellNo(g, i)]
      total == TLCEval(TotalMass(g, M, rho))  n == FinestCells(g)
      cells == TLCEval({ << o, CellAt(g, c) >> : o \in M, c \in 1..NCells(g) })
      diff == TLCEval([x \in cells |-> [f \in FaceDirs(g) |-> FaceDiff(g, M, phi, e.wall, x[1], x[2], f)]])
      lap(x) == LET d(f) == diff[x][f] IN SumSet(d, FaceDirs(g))
      src(x) == 3 * e.m * (rho(x[1], x[2]) * n - total) * 4 ^ (g.lmax - x[1][1])
  IN /\ Part("the potential solves the discrete Poisson equation", \A x \in cells : Close(lap(x) \div 4, src(x), 150 + Abs(src(x)) \div 5000))
     /\ Part("the acceleration is the gradient of the potential", \A x \in cells : \A d \in Dims(g) :
          Close(G[x[1]][CellNo(g, x[2])][d], (diff[x][Unit(d, -1)] - diff[x][Unit(d, 1)]) \div 4, 20))

(* ---------------- C27: limits on the time step ---------------- *)
C27(e) == e.op = "dtk" =>
  LET M == SetOf(e.own)
      src == RowOf(e.own, e.v)
      hydro(x, c) == HydroLimit(g, x, e.len, c)
      limit(o, c) == CASE e.module = "Compute_dt_parabolic" -> Max2(ParabolicLimit(g, o, e.len, e.kappa), ParabolicLimit(g, o, e.len, e.mu))
                       [] e.mhd = 1 -> Max2(HydroLimit(g, o, e.len, c), FastLimit(g, o, e.len, c))
                       [] OTHER -> HydroLimit(g, o, e.len, c)
      all == IF e.module = "Compute_dt_particle_velocity"
             THEN { ParticleLimit(g, M, e.len, p) : p \in RangeOf(Flatten(e.p, 1)) } \cup {0}
             ELSE UNION { { limit(o, c) : c \in RangeOf(src[o]) } : o \in M }
  IN Part("the largest step that every cell and particle of every process accepts", \A r \in DOMAIN e.inv : e.inv[r] = MaxOf(all))

(* ---------------- C29: states with a known result ---------------- *)
C29(e) == e.op = "exact" =>
  LET M == SetOf(s.own)
      S == RowOf(s.own, e.v)  R == RowOf(s.own, e.r)
      st(o, i) == S[o][CellNo(g, i)]  got(o, i) == R[o][CellNo(g, i)]
      cells == { << o, CellAt(g, c) >> : o \in M, c \in 1..NCells(g) }
      all(ok(_, _)) == \A x \in cells : ok(x[1], x[2])
      slack(w) == 3 + Abs(w) \div 4096 + (IF e.module = "HydroUpdate_RK2" THEN 2000 ELSE 0)
      upwind(o, i) == \A c \in 1..5 : LET w == UpwindRate(g, M, e.len, st, o, i, c) IN Close(got(o, i)[c], w, slack(w))
      muscl(o, i) == LET w == MassRate(g, M, e.len, st, o, i) IN
        \A c \in 1..5 : Close(got(o, i)[c], IF c \in 2..4 /\ c - 1 > g.dim THEN 0 ELSE w, slack(w))
      heat(o, i) == got(o, i) = << 0, 0, 0, 0, HeatRate(g, M, e, st, o, i) >>
      cool(o, i) == got(o, i) = << 0, 0, 0, 0, CoolRate(g, e, o, i) >>
      A == RowOf(s.own, e.gf)
      grav(o, i) == LET x == st(o, i)  a == A[o][CellNo(g, i)]  r == got(o, i) IN
        /\ r[1] = 0 /\ \A d \in 1..3 : r[1 + d] = 128 * x[1] * a[d]
        /\ r[5] \in GravityEnergies(x, a)
      point(o, i) == LET w == PointSquare(g, e, o, i) IN \A d \in Dims(g) : got(o, i)[d] = IF PointDistance(g, e, o, i, d) = 0 THEN 0 ELSE w
  IN CASE e.kind = "upwind" /\ e.wb = 1 -> AllPeriodic(g) => Part("the flux of the upwind cell", all(upwind))
       [] e.kind = "upwind" -> AllPeriodic(g) => Part("transport of the reconstructed density", all(muscl))
       [] e.kind = "conduct" -> Part("heat flows down the gradient of the temperature", all(heat))
       [] e.kind = "cool" -> Part("only the outer rows are heated and cooled", all(cool))
       [] e.kind = "gravity" -> AllPeriodic(g) => Part("momentum and work of gravity", all(grav))
       [] OTHER -> Part("attraction of the point mass", all(point))

(* ---------------- C28: initial state ---------------- *)
C28(e) == e.op = "ic" =>
  LET M == SetOf(e.own) IN
  IF e.module \in {"particle_grid", "simple_particles"}
  THEN /\ Part("the particles that were asked for", SameBag(Flatten(e.p, 1), TLCEval(InitialParticles(g, M, e))))
       /\ Part("particles are where their position belongs", \A r \in DOMAIN e.p : \A k \in DOMAIN e.p[r] : OctAt(g, M, e.p[r][k]) \in RangeOf(e.own[r]))
  ELSE /\ Part("the mesh the problem asks for", M = InitialMesh(g, SetOf(s.own), e))
       /\ Part("one owner each", NoDup(AllSeq(e.own)))
       /\ Part("the fields of the problem", RangeOf(e.icf) = FieldsOf(e.module))
       /\ Part("cell values", LET V == RowOf(e.own, e.v) IN \A o \in M : \A c \in 1..NCells(g) :
            LET i == CellAt(g, c) IN V[o][CellNo(g, i)] = InitialValue(g, e, o, i))

Check(e) == CASE Prop = "C01" -> C01(e)
              [] Prop = "C02" -> C02(e)
              [] Prop = "C03" -> C03(e)
              [] Prop = "C04" -> C04(e)
              [] Prop = "C05" -> C05(e)
              [] Prop = "C06" -> C06(e)
              [] Prop = "C07" -> C07(e)
              [] Prop = "C08" -> C08(e)
              [] Prop = "C09" -> C09(e)
              [] Prop = "C10" -> C10(e)
              [] Prop = "C11" -> C11(e)
              [] Prop = "C12" -> C12(e)
              [] Prop = "C13" -> C13(e)
              [] Prop = "C14" -> C14(e)
              [] Prop = "C21" -> C21(e)
              [] Prop = "C22" -> C22(e)
              [] Prop = "C23" -> C23(e)
              [] Prop = "C25" -> C25(e)
              [] Prop = "C26" -> C26(e)
              [] Prop = "C27" -> C27(e)
              [] Prop = "C29" -> C29(e)
              [] Prop = "C28" -> C28(e)
              [] OTHER -> FALSE

Init == /\ l = 1 /\ g = << >> /\ s = << >>
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           IF e.op \in {"end", "skip"} THEN l' = l + 1 /\ UNCHANGED << g, s >>
           ELSE /\ e.op # "crashed"
                /\ g' = IF e.op = "init" THEN Geo(e) ELSE g
                /\ Check(e) = TRUE
                /\ s' = IF Has(e, "own") /\ (Has(s, "fn") => Has(e, "fn") /\ Has(e, "pa") = Has(s, "pa")) THEN e ELSE s
                /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            IF d = Len(Trace) THEN PrintT(<<"ACCEPTED", d>>)
            ELSE PrintT(<<"STOPPED", d, Len(Trace), Trace[d + 1].op>>) /\ FALSE
==============================================================================
