------------------------------- MODULE ForestMC -------------------------------
(* Exhaustive exploration of Forest on a small geometry.  With Emit = TRUE every transition is printed, so that
   all of them can be replayed in the real code. *)
EXTENDS Forest, Json
CONSTANTS Near,   \* markers at most Near octants away from a uniform request; 9: every marker
          Levels, \* compactions of the balancing
          Emit, Lb, Brute
Marks == LET one(S, v) == { m \in [M -> -1..1] : /\ \A o \in M : m[o] \in Allowed(o)
                                                 /\ \A o \in M \ S : m[o] = (IF v \in Allowed(o) THEN v ELSE 0) }
             flip(k, v) == UNION { one(S, v) : S \in { T \in SUBSET M : Cardinality(T) = k } }
             base(v) == [ o \in M |-> IF v \in Allowed(o) THEN v ELSE 0 ]
             upto1(v) == { base(v) } \cup { [base(v) EXCEPT ![o] = x] : o \in M, x \in -1..1 }
             ok(m) == \A o \in M : m[o] \in Allowed(o)
             upto2(v) == { [m EXCEPT ![o] = x] : m \in upto1(v), o \in M, x \in -1..1 }
         IN IF Near = 9 THEN { m \in [M -> -1..1] : ok(m) }
            ELSE IF Near = 0 THEN { base(v) : v \in -1..1 }
            ELSE IF Near = 1 THEN { m \in UNION { upto1(v) : v \in -1..1 } : ok(m) }
            ELSE { m \in UNION { upto2(v) : v \in -1..1 } : ok(m) }
G1 == [dim |-> 2, cgs |-> <<2, 1, 1>>, lmin |-> 1, lmax |-> 2, per |-> <<1, 0, 0>>]
G2 == [dim |-> 2, cgs |-> <<1, 1, 1>>, lmin |-> 0, lmax |-> 2, per |-> <<1, 1, 0>>]
G3 == [dim |-> 2, cgs |-> <<2, 1, 1>>, lmin |-> 1, lmax |-> 3, per |-> <<0, 0, 0>>]
G4 == [dim |-> 3, cgs |-> <<1, 1, 1>>, lmin |-> 0, lmax |-> 1, per |-> <<0, 1, 0>>]
G5 == [dim |-> 2, cgs |-> <<2, 2, 1>>, lmin |-> 1, lmax |-> 2, per |-> <<0, 1, 0>>]
G6 == [dim |-> 3, cgs |-> <<1, 1, 1>>, lmin |-> 0, lmax |-> 2, per |-> <<0, 0, 1>>]
G7 == [dim |-> 3, cgs |-> <<2, 1, 1>>, lmin |-> 1, lmax |-> 2, per |-> <<1, 0, 0>>]
Out1(m) == IF Emit THEN LET S == TLCEval(Curve(M)) IN
             PrintT("T " \o ToJson([from |-> S, m |-> [ i \in DOMAIN S |-> m[S[i]] ], to |-> Curve(AdaptMesh(G, M, m))])) ELSE TRUE
Next == \/ \E m \in Marks : Adapt(m) /\ Out1(m)
        \/ Lb /\ \E L \in Levels : Balance(L)
Spec == Start /\ [][Next]_fvars

(* C01 *)
ValidMesh == Tiling(G, M) /\ LevelsOk(G, M) /\ Balanced(G, M)
(* C03: every process holds an interval of the curve, in rank order *)
OwnersAlongCurve == LET S == Curve(M) IN DOMAIN own = M /\ \A i \in 1..(Len(S) - 1) : own[S[i]] <= own[S[i + 1]]
(* the cuts the implementation computes are among the fair ones *)
AlgorithmIsFair == LET S == Curve(M) IN \A L \in Levels :
   LET q == Partition(G, S, P, L)  c == [ r \in 1..P |-> 1 + Len(Flatten(SubSeq(q, 1, r - 1), 1)) ]
   IN Len(S) >= P => c \in FairCuts(S, L)
(* a fair balancing splits no family of finest octants unless processes would starve *)
(* C04, C05: the touching relation is the geometric one, and is symmetric *)
TouchIsGeometric == \A o \in M : \A d \in Offsets(G) : Touching(G, M, o, d) = (IF Out(G, o, d) THEN {} ELSE GeoTouchingSet(G, M, o, d))
TouchSymmetric == LET nb == Neighbours(G, M) IN \A o \in M : \A n \in nb[o] : o \in nb[n]
GhostsMutual == LET nb == Neighbours(G, M)
                    ghosts(r) == { n \in UNION { nb[o] : o \in { x \in M : own[x] = r } } : own[n] # r }
                    needed(r) == { o \in { x \in M : own[x] = r } : \E n \in nb[o] : own[n] # r }
                IN \A r \in 1..P : /\ \A n \in ghosts(r) : n \in needed(own[n])
                                    /\ \A o \in needed(r) : \E q \in 1..P : q # r /\ o \in ghosts(q)
(* C02: the final markers are valid, and below every valid choice *)
Valid(m, f) == LET nb == Neighbours(G, M) IN
   /\ \A o \in M : f[o] >= m[o] /\ f[o] \in -1..1 /\ o[1] + f[o] <= G.lmax
   /\ \A o \in M : f[o] = -1 => \A s \in Siblings(G, o) : s \in M /\ f[s] = -1
   /\ \A o \in M : \A n \in nb[o] : n[1] + f[n] - o[1] - f[o] <= 1
LeastChoice == (Brute >= Cardinality(M)) =>
   \A m \in Marks : LET f == FinalMarkers(G, M, m) IN
      /\ Valid(m, f)
      /\ \A h \in [M -> -1..1] : (\E o \in M : h[o] < f[o]) => ~Valid(m, h)
(* every step: each request to refine is honoured, nothing is coarsened unasked, levels change by at most one *)
StepOk == [][ \A o \in M : \/ o \in M' \/ Children(G, o) \subseteq M' \/ Parent(o) \in M' ]_fvars
CellsKeepOwner == [][ M' # M => \A o \in M' : o \in M => own'[o] = own[o] ]_fvars
===============================================================================
