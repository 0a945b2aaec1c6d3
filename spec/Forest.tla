-------------------------------- MODULE Forest --------------------------------
(***************************************************************************)
(* The distributed forest as a state machine: the mesh M, who owns each      *)
(* octant, and the two operations that change them.  Checked exhaustively    *)
(* on small geometries (ForestMC); the conformance modules accept a step of  *)
(* the real code iff it is one of these.                                    *)
(***************************************************************************)
EXTENDS Octree, SequencesExt
CONSTANTS G, P
VARIABLES M,     \* the mesh
          own    \* [M -> 1..P]
fvars == << M, own >>

Curve(X) == LET lt(a, b) == Key(G, a) < Key(G, b) IN SetToSortSeq(X, lt)
Allowed(o) == { x \in -1..1 : ~(x = 1 /\ o[1] = G.lmax) /\ ~(x = -1 /\ o[1] = G.lmin) }
(* cuts of the curve: where each process starts; 1 = c[1] <= c[2] <= ... *)
CutsOf(n) == { c \in [1..P -> 1..(n + 1)] : c[1] = 1 /\ \A r \in 1..(P - 1) : c[r] <= c[r + 1] }
OwnOf(S, c) == [ o \in RangeOf(S) |-> MaxOf({ r \in 1..P : c[r] <= (CHOOSE i \in DOMAIN S : S[i] = o) }) ]
(* what a balancing at compaction L may choose: see C03 *)
FairCut(S, L, c, r) ==
  LET ideal == ((Len(S) * (r - 1)) \div P) + 1
      grp == Group(G, S, ideal, L)
      aligned == c[r] > Len(S) \/ Group(G, S, c[r], L)[1] = c[r]
  IN /\ c[r] >= grp[1] /\ c[r] <= grp[2] + 1 /\ (~aligned => grp[1] <= c[r - 1])
FairCuts(S, L) == { c \in CutsOf(Len(S)) : /\ \A r \in 2..P : FairCut(S, L, c, r)
                                           /\ Len(S) >= P => \A r \in 1..P : (IF r = P THEN Len(S) + 1 ELSE c[r + 1]) > c[r] }

Start == M = CoarseMesh(G) /\ own = OwnOf(Curve(CoarseMesh(G)), CHOOSE c \in FairCuts(Curve(CoarseMesh(G)), 0) : TRUE)
Adapt(m) == /\ M' = AdaptMesh(G, M, m)
            /\ own' = [ o \in M' |-> AdaptOwner(G, M, own, o) ]
Balance(L) == /\ \E c \in FairCuts(Curve(M), L) : own' = OwnOf(Curve(M), c)
              /\ UNCHANGED M
===============================================================================
