----------------------------- MODULE AdaptProtocol -----------------------------
(***************************************************************************)
(* How the final markers are found when the mesh is distributed: every        *)
(* process applies the local rule to its own octants, in any order, with the  *)
(* last values it got for its ghosts; values travel when processes            *)
(* synchronise.  Whatever the order and the partition, the only stable result *)
(* is FinalMarkers, and it is reached: this is why adapt can be specified     *)
(* without mentioning processes.                                             *)
(***************************************************************************)
EXTENDS Forest
CONSTANTS Full      \* 1: all requests on the coarse mesh; 0: refine one octant, coarsen all finer than a level, on meshes refined
                    \* up to twice; 2: refine one octant of a mesh refined twice
VARIABLES req, mk, view,
          nb, fin   \* who touches whom, and the final markers (do not change)
vars == << M, own, req, mk, view, nb, fin >>
A1 == [dim |-> 2, cgs |-> <<2, 1, 1>>, lmin |-> 1, lmax |-> 3, per |-> <<1, 0, 0>>]
A3 == [dim |-> 2, cgs |-> <<2, 1, 1>>, lmin |-> 1, lmax |-> 2, per |-> <<1, 0, 0>>]
A2 == [dim |-> 2, cgs |-> <<1, 1, 1>>, lmin |-> 0, lmax |-> 3, per |-> <<0, 1, 0>>]
Meshes == LET C == CoarseMesh(G)
              r1(X) == { AdaptMesh(G, X, [ o \in X |-> IF o = q THEN 1 ELSE 0 ]) : q \in { x \in X : x[1] < G.lmax } }
          IN IF Full = 2 THEN UNION { r1(X) : X \in r1(C) } ELSE { C } \cup (IF Full = 1 THEN {} ELSE r1(C) \cup UNION { r1(X) : X \in r1(C) })
Requests(X) == IF Full = 1 THEN { m \in [X -> -1..1] : \A o \in X : m[o] \in Allowed(o) }
  ELSE { [ o \in X |-> IF o = q THEN 1 ELSE IF o[1] > l THEN -1 ELSE 0 ] : q \in { x \in X : x[1] < G.lmax }, l \in (IF Full = 2 THEN {G.lmax} ELSE G.lmin..(G.lmax - 1)) }
Dom(X, w) == UNION { { << r, n >> : n \in UNION { nb[o] : o \in { x \in X : w[x] = r } } } : r \in 1..P }
Start0 == /\ M \in Meshes /\ nb = Neighbours(G, M)
          /\ \E c \in CutsOf(Cardinality(M)) : own = OwnOf(Curve(M), c)
          /\ req \in Requests(M) /\ mk = req /\ view = [ p \in Dom(M, own) |-> req[p[2]] ]
          /\ fin = FixP(G, M, nb, req)
(* the local rule at o, with what its owner sees *)
See(o, n) == IF own[n] = own[o] THEN mk[n] ELSE view[<< own[o], n >>]
Local(o) == LET base == IF mk[o] = -1 /\ \E s \in Siblings(G, o) : IF s \notin M THEN TRUE ELSE See(o, s) # -1 THEN 0 ELSE mk[o]
            IN MaxOf({base} \cup { n[1] + See(o, n) - 1 - o[1] : n \in nb[o] })
Update(o) == /\ Local(o) # mk[o] /\ mk' = [mk EXCEPT ![o] = Local(o)] /\ UNCHANGED << M, own, req, view, nb, fin >>
Sync(r) == /\ \E p \in DOMAIN view : p[1] = r /\ view[p] # mk[p[2]]
           /\ view' = [p \in DOMAIN view |-> IF p[1] = r THEN mk[p[2]] ELSE view[p]] /\ UNCHANGED << M, own, req, mk, nb, fin >>
Next == (\E o \in M : Update(o)) \/ \E r \in 1..P : Sync(r)
Spec == Start0 /\ [][Next]_vars /\ WF_vars(Next)
Confluent == (~ENABLED Next) => mk = fin
NeverTooHigh == \A o \in M : mk[o] <= fin[o]
Rises == [][ (\A o \in M : mk'[o] >= mk[o]) ]_vars
Settles == <>[](mk = fin)
===============================================================================
