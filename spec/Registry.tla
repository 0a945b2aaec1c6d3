------------------------------- MODULE Registry -------------------------------
(***************************************************************************)
(* Named fields (or named attributes of a particle array) and the storage    *)
(* behind them: an array of columns and a map from names to columns.  The    *)
(* abstract registry reg is what a user sees; the columns are how the code   *)
(* keeps it.  Checked: the columns always refine the registry, under every   *)
(* sequence of operations up to a length.  With Emit the sequences are       *)
(* printed and replayed in the real code.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Names, Depth, Emit, Ordered   \* Ordered: names are used in their order first (cuts symmetric sequences)
VARIABLES reg,    \* [name -> value]
          col,    \* [name -> column]
          store,  \* columns
          most,   \* largest number of fields so far
          hist    \* operations so far
vars == << reg, col, store, most, hist >>

Order == << "a", "b", "c", "d" >>
Pos(n) == CHOOSE i \in DOMAIN Order : Order[i] = n
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Used == UNION { LET h == hist[i] IN { h.names[j] : j \in DOMAIN h.names } : i \in DOMAIN hist }
MayUse(S) == Ordered => \A n \in S \ Used : \A x \in Names : Pos(x) < Pos(n) => x \in Used \cup S
Put(f, n, v) == [ x \in DOMAIN f \cup {n} |-> IF x = n THEN v ELSE f[x] ]
Without(f, n) == [ x \in DOMAIN f \ {n} |-> f[x] ]
Sorted(S) == CHOOSE q \in [ 1..Cardinality(S) -> S ] : \A i, j \in DOMAIN q : i < j => Pos(q[i]) < Pos(q[j])
Value == Len(hist) + 1
Log(o, q) == hist' = Append(hist, [op |-> o, names |-> q])

Start == reg = << >> /\ col = << >> /\ store = << >> /\ most = 0 /\ hist = << >>
(* what a user sees *)
NewOk(S) == S \cap DOMAIN reg = {}
(* columns: the first free one *)
RECURSIVE Place(_, _, _)
Place(q, c, st) == IF q = << >> THEN << c, st >>
  ELSE LET taken == { c[n] : n \in DOMAIN c }
           free == Min({ i \in 1..(Len(st) + 1) : i \notin taken })
           st2 == [ i \in 1..Max({Len(st), free}) |-> IF i = free THEN 0 ELSE st[i] ]
       IN Place(Tail(q), Put(c, Head(q), free), st2)
New(S) == /\ Log("newf", Sorted(S))
          /\ IF NewOk(S)
             THEN /\ reg' = [ n \in DOMAIN reg \cup S |-> IF n \in S THEN 0 ELSE reg[n] ]
                  /\ most' = Max({most, Cardinality(DOMAIN reg) + Cardinality(S)})
                  /\ LET wide == IF Cardinality(DOMAIN reg) + Cardinality(S) > Len(store)
                                 THEN [ i \in 1..most' |-> IF i <= Len(store) THEN store[i] ELSE 0 ] ELSE store
                         p == Place(Sorted(S), col, wide) IN col' = p[1] /\ store' = p[2]
             ELSE UNCHANGED << reg, col, store, most >>
Set(n) == /\ n \in DOMAIN reg /\ reg' = Put(reg, n, Value) /\ store' = [store EXCEPT ![col[n]] = Value]
          /\ UNCHANGED << col, most >> /\ Log("setf", << n >>)
Move(d, f) == /\ Log("movef", << d, f >>)
              /\ IF f \in DOMAIN reg /\ d # f
                 THEN reg' = Without(Put(reg, d, reg[f]), f) /\ col' = Without(Put(col, d, col[f]), f) /\ UNCHANGED << store, most >>
                 ELSE UNCHANGED << reg, col, store, most >>
Delete(n) == /\ reg' = Without(reg, n) /\ col' = Without(col, n) /\ UNCHANGED << store, most >> /\ Log("delf", << n >>)
(* columns are packed in name order; contents start from the old ones here (the caller copies them) *)
Realloc == /\ LET q == Sorted(DOMAIN reg) IN
              /\ col' = [ n \in DOMAIN reg |-> CHOOSE i \in DOMAIN q : q[i] = n ]
              /\ store' = [ i \in DOMAIN q |-> reg[q[i]] ]
           /\ UNCHANGED << reg, most >> /\ Log("reallocf", << >>)

Done == Len(hist) = Depth
Step == \/ \E S \in { T \in SUBSET Names : Cardinality(T) \in 1..2 } : MayUse(S) /\ New(S)
        \/ \E n \in Names : MayUse({n}) /\ (Delete(n) \/ Set(n))
        \/ \E d, f \in Names : MayUse({d, f}) /\ Move(d, f)
        \/ Realloc
Next == ~Done /\ Step /\ (Emit /\ Len(hist') = Depth => PrintT("T " \o ToJson(hist')))
Spec == Start /\ [][Next]_vars

Refines == /\ DOMAIN col = DOMAIN reg
           /\ \A n \in DOMAIN reg : col[n] \in DOMAIN store /\ store[col[n]] = reg[n]
NoSharing == \A m, n \in DOMAIN col : m # n => col[m] # col[n]
Bounded == Cardinality(DOMAIN reg) <= most
(* an operation that concerns other names leaves a field alone *)
Frame == [][ \A n \in DOMAIN reg : (n \notin { hist'[Len(hist')].names[j] : j \in DOMAIN hist'[Len(hist')].names }) => n \in DOMAIN reg' /\ reg'[n] = reg[n] ]_vars
===============================================================================
