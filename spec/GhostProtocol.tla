----------------------------- MODULE GhostProtocol -----------------------------
(***************************************************************************)
(* Ghost exchange and ghost reduction as messages between processes, on      *)
(* every mesh and ownership of a small forest.  Messages travel in any       *)
(* order; a process unpacks what has arrived whenever it wants.  At the end   *)
(* every ghost copy equals its owner's value (exchange), or every owner holds *)
(* its value plus each copy's contribution exactly once (reduction),          *)
(* whatever the order: the specification the conformance check of C06, C07    *)
(* and C14 uses has no schedule in it, and this is why it does not need one.  *)
(***************************************************************************)
EXTENDS Forest
CONSTANTS Mode   \* "exchange", "reduce"
VARIABLES val,    \* owned values: [M -> Int]
          gho,    \* ghost copies: << rank, octant >> -> Int
          pc,     \* [1..P -> {"post", "wait", "done"}]
          net,    \* messages in flight: << from, to, octant, value >>
          val0, gho0
vars == << M, own, val, gho, pc, net, val0, gho0 >>
GhostsOf(X, w, r) == LET nb == Neighbours(G, X) IN { n \in UNION { nb[o] : o \in { x \in X : w[x] = r } } : w[n] # r }
(* values that tell octants and copies apart in every sum *)
Num(o) == LET S == Curve(M) IN CHOOSE i \in DOMAIN S : S[i] = o
Geo1 == [dim |-> 2, cgs |-> <<2, 1, 1>>, lmin |-> 1, lmax |-> 2, per |-> <<1, 0, 0>>]
Geo2 == [dim |-> 2, cgs |-> <<2, 1, 1>>, lmin |-> 1, lmax |-> 2, per |-> <<0, 0, 0>>]
Start0 ==
  \E X \in { CoarseMesh(G) } \cup { AdaptMesh(G, CoarseMesh(G), [ o \in CoarseMesh(G) |-> IF o \in R THEN 1 ELSE 0 ]) : R \in SUBSET CoarseMesh(G) } :
   /\ M = X
   /\ \E c \in CutsOf(Cardinality(X)) : own = OwnOf(Curve(X), c)
   /\ val = [ o \in M |-> 2 ^ Num(o) ] /\ val0 = val
   /\ gho = [ p \in UNION { { << r, o >> : o \in GhostsOf(M, own, r) } : r \in 1..P } |-> 2 ^ (Num(p[2]) + Cardinality(M) * (IF p[1] < own[p[2]] THEN p[1] ELSE p[1] - 1)) ] /\ gho0 = gho
   /\ pc = [ r \in 1..P |-> "post" ] /\ net = {}
(* one packet from each process to each other one that needs something: << from, to, { << octant, value >> } >> *)
(* exchange: the owner sends to every process that has a ghost copy; it knows who from its own neighbours *)
SendList(r) == { << r, q, { << o, val[o] >> : o \in { x \in M : own[x] = r /\ \E n \in Neighbours(G, M)[x] : own[n] = q } } >> : q \in (1..P) \ {r} }
BackList(r) == { << r, q, { << o, gho[<< r, o >>] >> : o \in { x \in GhostsOf(M, own, r) : own[x] = q } } >> : q \in (1..P) \ {r} }
Post(r) == /\ pc[r] = "post" /\ pc' = [pc EXCEPT ![r] = "wait"]
           /\ net' = net \cup { m \in (IF Mode = "exchange" THEN SendList(r) ELSE BackList(r)) : m[3] # {} }
           /\ UNCHANGED << M, own, val, gho, val0, gho0 >>
(* what r waits for, from what it knows itself *)
Expected(r) == IF Mode = "exchange" THEN { << own[o], r, o >> : o \in GhostsOf(M, own, r) }
               ELSE UNION { { << own[n], r, o >> : n \in { x \in Neighbours(G, M)[o] : own[x] # r } } : o \in { x \in M : own[x] = r } }
In(m, o) == (CHOOSE x \in m[3] : x[1] = o)[2]
Receive(m) == /\ m \in net /\ pc[m[2]] = "wait"
              /\ net' = net \ {m}
              /\ LET S == { x[1] : x \in m[3] } IN
                 IF Mode = "exchange" THEN gho' = [p \in DOMAIN gho |-> IF p[1] = m[2] /\ p[2] \in S THEN In(m, p[2]) ELSE gho[p]] /\ UNCHANGED val
                 ELSE val' = [o \in M |-> IF o \in S THEN val[o] + In(m, o) ELSE val[o]] /\ UNCHANGED gho
              /\ UNCHANGED << M, own, pc, val0, gho0 >>
Finish(r) == /\ pc[r] = "wait"
             /\ \A q \in 1..P : pc[q] # "post"
             /\ { m \in net : m[2] = r } = {}
             /\ pc' = [pc EXCEPT ![r] = "done"] /\ UNCHANGED << M, own, val, gho, net, val0, gho0 >>
Next == (\E r \in 1..P : Post(r) \/ Finish(r)) \/ \E m \in net : Receive(m)
Spec == Start0 /\ [][Next]_vars /\ WF_vars(Next)

(* nobody waits for a message that is never sent, nor gets one it does not expect: both sides agree on the lists *)
Sent(r) == UNION { { << m[1], m[2], x[1] >> : x \in m[3] } : m \in (IF Mode = "exchange" THEN SendList(r) ELSE BackList(r)) }
ListsAgree == UNION { Sent(r) : r \in 1..P } = UNION { Expected(r) : r \in 1..P }
AllDone == \A r \in 1..P : pc[r] = "done"
RECURSIVE SumOf(_)
SumOf(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN gho0[x] + SumOf(S \ {x})
Result == AllDone => IF Mode = "exchange" THEN /\ \A p \in DOMAIN gho : gho[p] = val0[p[2]]
                                               /\ val = val0
                     ELSE /\ \A o \in M : val[o] = val0[o] + SumOf({ p \in DOMAIN gho0 : p[2] = o })
                          /\ gho = gho0
Ends == <>AllDone
===============================================================================
