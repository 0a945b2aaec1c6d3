------------------------------ MODULE LoopTrace ------------------------------
(***************************************************************************)
(* Conformance of whole simulations: every line of trace.ndjson is a call    *)
(* of a module by the real time loop, with the global state it was given.   *)
(* A campaign is a base run followed by restarts and variants of it         *)
(* (process count, balancing, threads); spec/TimeLoop.tla says which call    *)
(* comes next, the base run says what state the others have to show.        *)
(***************************************************************************)
EXTENDS Octree, TimeLoop, Json
CONSTANT Prop
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l,      \* next line
          g,      \* geometry of the run
          k,      \* its configuration
          c,      \* clock
          todo,   \* module calls still to come in this step
          m,      \* what the current step has shown: limits, marks, balanced, ending
          s,      \* last observed state
          base,   \* line of the "run" event of the base run of the campaign
          run0,   \* line of the "run" event of this run
          kind    \* "base", "restart", "variant"
vars == << l, g, k, c, todo, m, s, base, run0, kind >>

Part(n, b) == IF b THEN TRUE ELSE (PrintT(<<"REJECTED", Prop, l, n>>) /\ FALSE)
Has(e, x) == x \in DOMAIN e
None == << >>
NoTime == -2000000001
Geo(e) == [dim |-> e.dim, cgs |-> e.cgs, lmin |-> e.lmin, lmax |-> e.lmax, per |-> e.per, b |-> e.b]

(* two observations of the same simulation state; only who owns what may differ *)
SamePa(a, b) == DOMAIN a.pa = DOMAIN b.pa /\ \A n \in DOMAIN a.pa : a.pa[n].at = b.pa[n].at /\ a.pa[n].v = b.pa[n].v
Same(a, b) == a.oct = b.oct /\ a.f = b.f /\ SamePa(a, b)
On(D, f) == [ x \in D |-> f[x] ]
FieldsOfStep == {"rho", "e_tot", "rho_vx", "rho_vy", "rho_vz"}
NextName(f) == f \o "_next"
NextNames(k0) == { NextName(f) : f \in FieldsOfStep \cup { k0.mhd[n] : n \in DOMAIN k0.mhd } }
(* the state after the hydro module: its output fields replace the current ones *)
AfterHydro(p) == LET N == NextNames(k)  D == DOMAIN p.f \ N IN
  [p EXCEPT !.f = [ f \in D |-> IF NextName(f) \in N /\ NextName(f) \in DOMAIN p.f THEN p.f[NextName(f)] ELSE p.f[f] ]]

(* modules that work on the data within a step; the sources change the result of the hydro step before it becomes current *)
Sources == {"visc", "cond", "cool"}
Modules == {"dens", "grav", "move", "hyd"} \cup Sources

(* gravity: the fields it needs exist from the first step on; the density it sees may include the particles, for that call only *)
GravFields == IF k.gfield = 1 THEN {"gx", "gy", "gz", "gphi"} ELSE {}
AfterDens(p) == LET D == (DOMAIN p.f \ {"rho_g"}) \cup {"rho_bak"} IN [p EXCEPT !.f = [ f \in D |-> IF f = "rho_bak" THEN p.f["rho"] ELSE IF f = "rho" THEN p.f["rho_g"] ELSE p.f[f] ]]
AfterGrav(p) == IF k.dens = 0 THEN p ELSE LET D == DOMAIN p.f \ {"rho_bak"} IN [p EXCEPT !.f = [ f \in D |-> IF f = "rho" THEN p.f["rho_bak"] ELSE p.f[f] ]]
(* fields that may have appeared since the last call *)
Appears(op, was) == (IF op \in Modules THEN GravFields \ was ELSE {}) \cup (IF op = "hyd" THEN NextNames(k) ELSE IF op = "dens" THEN {"rho_g"} ELSE {})

OctSet(st) == RangeOf(st.oct)
OwnerOf(st) == LET n == Len(st.oct) IN TLCEval([ o \in OctSet(st) |-> st.own[CHOOSE i \in 1..n : st.oct[i] = o] ])
(* every particle lives on the process that owns the octant that contains it *)
Resident(st) == LET own == OwnerOf(st) IN
  \A n \in DOMAIN st.pa : \A i \in DOMAIN st.pa[n].v :
    LET q == st.pa[n].v[i]
        at(x) == Anc(<<g.lmax, q[1], q[2], q[3]>>, x)
    IN \E x \in g.lmin..g.lmax : at(x) \in DOMAIN own /\ own[at(x)] = st.pa[n].own[i]

MarkFn(M, e) == LET S == RangeOf(e.marks) IN [ o \in M |-> IF \E q \in S : SubSeq(q, 1, 4) = o THEN (CHOOSE q \in S : SubSeq(q, 1, 4) = o)[5] ELSE 0 ]

(* the state of the loop before event e, i.e. the last one shown *)
Pre(e) == IF Has(e, "pre") THEN e.pre ELSE IF Has(e, "st") THEN e.st ELSE None
StateOps == {"out", "ckpt", "dt", "dens", "grav", "move", "hyd", "visc", "cond", "cool", "ref"}

(* the time step, when the limits and the time are multiples of the unit *)
NewTime(mm) == IF c.t = NoTime \/ NoTime \in mm.limits \/ mm.limits = {} THEN NoTime ELSE StepDt(k, c, mm.limits)

(* ---------------- C16: schedule ---------------- *)
Agree(e) == \A r \in DOMAIN e.ag : e.ag[r] = e.ag[1]
ClockOk(e, cc) == e.iter = cc.i /\ (e.t = cc.t \/ cc.t = NoTime)
C16(e, op) ==
  /\ Part("next module call: " \o op, e.op = op)
  /\ Has(e, "ag") => Part("all processes agree on the clock", Agree(e))
  /\ e.op \in ({"out", "ckpt", "dt"} \cup Modules) => Part("iteration and time", ClockOk(e, c))
  /\ e.op = "ref" => Part("iteration and time after the step", e.iter = c.i + 1 /\ (NewTime(m) = NoTime \/ e.t = c.t + NewTime(m)))
  /\ e.op = "dt" => Part("order of the limits", e.k = Cardinality(m.ks) + 1)
  /\ (e.op \in StateOps /\ Pre(e) # None /\ s # None) =>
       /\ Part("the mesh is adapted only when due", Pre(e).oct = s.oct)
       /\ Part("fields", DOMAIN Pre(e).f = DOMAIN s.f \cup Appears(e.op, DOMAIN s.f))
       /\ Part("nothing but the scheduled modules changes the data", On(DOMAIN s.f, Pre(e).f) = s.f /\ SamePa(Pre(e), s))
       /\ Part("octants migrate only when due", Pre(e).own = s.own \/ m.balanced)
  /\ e.op \in Modules => Part("modules leave the mesh alone", e.pre.oct = e.st.oct /\ e.pre.own = e.st.own)
  /\ e.op = "hyd" => Part("fields of the hydro step", DOMAIN e.st.f = DOMAIN e.pre.f /\ NextNames(k) \subseteq DOMAIN e.pre.f)
  /\ e.op \in Sources => Part("sources change the result of the hydro step only", DOMAIN e.st.f = DOMAIN e.pre.f /\ NextNames(k) \subseteq DOMAIN e.pre.f)
  /\ e.op = "sav" => Part("the mesh saved is the current one", e.oct = s.oct /\ e.own = s.own)
  /\ e.op = "rem" => /\ Part("fields after the remap", DOMAIN e.st.f = DOMAIN s.f)
                     /\ m.marks # None => Part("adapted mesh", OctSet(e.st) = AdaptMesh(g, OctSet(s), MarkFn(OctSet(s), m.marks[1])))
                     /\ Part("particles after the remap", SamePa(e.st, s))

(* ---------------- C17: time step ---------------- *)
Less(a, b) == \/ a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]) \/ (a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3])
MinB(S) == CHOOSE x \in S : \A y \in S : ~Less(y, x)
C17(e) ==
  /\ Has(e, "ag") => Part("all processes agree on time and time step", Agree(e))
  /\ (e.op \in Modules /\ m.limits # {}) =>
       IF e.t # NoTime /\ NoTime \notin m.limits
       THEN Part("the time step is the smallest limit, cut at the end", e.dt = StepDt(k, c, m.limits))
       ELSE IF k.useEnd = 0 THEN Part("the time step is the smallest limit", e.dtb = MinB(m.limitb))
       ELSE Part("the time step is not above the smallest limit", ~Less(MinB(m.limitb), e.dtb))
  /\ (k.useEnd = 1 /\ e.op \in {"out", "ckpt", "dt"} /\ Has(e, "t") /\ e.t # NoTime) => Part("the end time is not passed", e.t <= (IF k.t0 > k.tEnd THEN k.t0 ELSE k.tEnd))
  /\ (e.op = "ref" /\ NewTime(m) # NoTime) => Part("the clock advances by the time step", e.t = c.t + NewTime(m))

(* ---------------- C15, C19: the same simulation ---------------- *)
RECURSIVE EndOf(_)
EndOf(i) == IF i > Len(Trace) \/ Trace[i].op = "run" THEN i - 1 ELSE EndOf(i + 1)
(* the calls of the base run that a call of this run corresponds to: same module, iteration and argument *)
K(e) == IF Has(e, "k") THEN e.k ELSE 0
Matches(e) == { i \in base..EndOf(base + 1) : Trace[i].op = e.op /\ Trace[i].iter = e.iter /\ K(Trace[i]) = K(e) }
EqEvent(e, b) == /\ Part("clock", e.tb = b.tb /\ (e.op \in {"out", "ckpt"} \/ e.dtb = b.dtb))
                 /\ Has(e, "pre") => /\ Part("mesh before the module", e.pre.oct = b.pre.oct)
                                     /\ Part("particles before the module", SamePa(e.pre, b.pre))
                                     /\ Part("fields before the module",    \* the output fields of the hydro step hold anything before it
                                            LET D == DOMAIN b.pre.f \ (IF e.op = "hyd" THEN NextNames(k) ELSE IF e.op = "grav" THEN GravFields ELSE {}) IN
                                            DOMAIN e.pre.f = DOMAIN b.pre.f /\ On(D, e.pre.f) = On(D, b.pre.f))
                 /\ Has(e, "st") => /\ Part("mesh", e.st.oct = b.st.oct)
                                    /\ Part("particles", SamePa(e.st, b.st))
                                    /\ Part("fields", Same(e.st, b.st))
                 /\ Has(e, "marks") => Part("marks", e.marks = b.marks)
Compared == {"out", "ckpt", "dt", "grav", "move", "hyd", "visc", "cond", "cool", "ref"}
C19(e) == (kind = "variant" /\ e.op # "run") =>
   IF e.op = "init" THEN Part("initial state", Same(e.st, Trace[base + 1].st))
   ELSE IF e.op \notin Compared THEN TRUE
   ELSE LET b == Matches(e) IN
        /\ Part("the same call happens in the base run", Cardinality(b) = 1)
        /\ EqEvent(e, Trace[CHOOSE i \in b : TRUE])
(* restarts: the state shown right after reading equals what was given to the checkpoint; everything after equals the base run *)
C15(e) ==
  /\ (kind = "restart" /\ e.op = "init") =>
       LET b == { i \in base..EndOf(base + 1) : Trace[i].op = "ckpt" /\ Trace[i].iter = k.i0 }
           q == Trace[CHOOSE i \in b : TRUE].st
       IN /\ Part("there is such a checkpoint", b # {})
          /\ Part("mesh after the restart", e.st.oct = q.oct)
          /\ Part("fields after the restart", e.st.f = q.f)
          /\ Part("particles after the restart", SamePa(e.st, q))
  /\ (kind = "restart" /\ e.op \in {"out", "ckpt", "dt", "hyd", "ref"} /\ Pre(e) # None) =>
       Part("particles live on the process that owns their octant", Resident(Pre(e)))
  /\ (kind = "restart" /\ e.op \in Compared) =>
       LET b == Matches(e) IN
       /\ (e.op \notin {"out", "ckpt"}) => Part("the uninterrupted run does the same", Cardinality(b) = 1)
       /\ b # {} => EqEvent(e, Trace[CHOOSE i \in b : TRUE])
  /\ (kind = "restart" /\ e.op = "end") =>
       Part("everything the uninterrupted run does later is done",
            \A i \in base..EndOf(base + 1) : (Trace[i].op \in Compared /\ Trace[i].iter > k.i0) =>
               \E j \in run0..l : Trace[j].op = Trace[i].op /\ Trace[j].iter = Trace[i].iter /\ K(Trace[j]) = K(Trace[i]))

(* ---------------- C11 (whole runs): residence of particles ---------------- *)
C11(e) == (e.op \in {"init", "out", "ckpt", "dt", "hyd", "ref"} /\ (e.op = "init" => kind # "restart") /\ Pre(e) # None) => Part("particles live on the process that owns their octant", Resident(Pre(e)))

(* ---------------- C20: what is written ---------------- *)
RECURSIVE Prod(_, _)
Prod(q, i) == IF i > Len(q) THEN 1 ELSE q[i] * Prod(q, i + 1)
Blk(d) == IF d > g.dim THEN 1 ELSE g.b[d]
NCell == Blk(1) * Blk(2) * Blk(3)
CellW(x) == 2 * 2 ^ (g.lmax - x)      \* node lattice: half finest cells
Corners == IF g.dim = 2 THEN << <<0,0,0>>, <<1,0,0>>, <<1,1,0>>, <<0,1,0>> >>
           ELSE << <<0,0,0>>, <<1,0,0>>, <<1,1,0>>, <<0,1,0>>, <<0,0,1>>, <<1,0,1>>, <<1,1,1>>, <<0,1,1>> >>
(* cell number n of a file: <<octant, linear index in the block>>, or None when its nodes are not those of a cell *)
FileCell(ds, n) ==
  LET cn == ds.connectivity.v[n]
      nd == Len(ds.coordinates.v)
      P(j) == ds.coordinates.v[cn[j] + 1]
  IN IF Len(cn) # Len(Corners) \/ \E j \in DOMAIN cn : cn[j] < 0 \/ cn[j] >= nd THEN None
     ELSE LET p == P(1)  w == P(2)[1] - p[1] IN
          IF w <= 0 \/ ~ \E x \in g.lmin..g.lmax : CellW(x) = w THEN None
          ELSE IF \E j \in DOMAIN cn : \E d \in 1..3 : P(j)[d] # p[d] + Corners[j][d] * w THEN None
          ELSE IF \E d \in Dims(g) : p[d] % w # 0 \/ p[d] < 0 THEN None
          ELSE LET x == CHOOSE x \in g.lmin..g.lmax : CellW(x) = w
                   q(d) == IF d > g.dim THEN 0 ELSE p[d] \div w
               IN << <<x, q(1) \div Blk(1), q(2) \div Blk(2), q(3) \div Blk(3)>>,
                     (q(1) % Blk(1)) + Blk(1) * ((q(2) % Blk(2)) + Blk(2) * (q(3) % Blk(3))) + 1 >>
Special == {"ioct", "level", "rank"}
Requested == RangeOf(k.wvars)
FloatDs(d) == d.fl = 1 /\ d.sz = k.prec
C20File(e) ==
  LET f == e.file  ds == f.ds  st == e.st
      M == OctSet(st)
      idx == TLCEval([ o \in M |-> CHOOSE i \in DOMAIN st.oct : st.oct[i] = o ])
      want == {"coordinates", "connectivity"} \cup (Requested \cap (Special \cup DOMAIN st.f))
      N == Len(st.oct) * NCell
      cell == TLCEval([ n \in 1..Len(ds.connectivity.v) |-> FileCell(ds, n) ])
  IN /\ Part("datasets", DOMAIN ds = want)
     /\ Part("iteration and time in the file", f.iter = e.iter /\ f.tb = e.tb)
     /\ Part("one entry per cell", Len(ds.connectivity.v) = N /\ \A v \in want \ {"coordinates", "connectivity"} : ds[v].dim = <<N>>)
     /\ Part("types", FloatDs(ds.coordinates) /\ \A v \in want \cap DOMAIN st.f : FloatDs(ds[v]))
     /\ Part("nodes of the cells", \A n \in 1..N : cell[n] # None)
     /\ Part("every cell once", { cell[n] : n \in 1..N } = { << o, x >> : o \in M, x \in 1..NCell })
     /\ Part("field values", \A v \in want \cap DOMAIN st.f : \A n \in 1..N : ds[v].v[n] = e.mem.f[v][idx[cell[n][1]]][cell[n][2]])
     /\ "level" \in want => Part("levels", \A n \in 1..N : ds["level"].v[n] = cell[n][1][1])
     /\ "rank" \in want => Part("ranks", \A n \in 1..N : ds["rank"].v[n] = st.own[idx[cell[n][1]]] - 1)
     /\ "ioct" \in want => /\ Part("octant numbers", \A n \in 1..N : ds["ioct"].v[n] >= 0 /\ ds["ioct"].v[n] < Len(st.oct))
                           /\ Part("one number per octant", Cardinality({ << cell[n][1], ds["ioct"].v[n] >> : n \in 1..N }) = Cardinality(M)
                                                             /\ Cardinality({ ds["ioct"].v[n] : n \in 1..N }) = Cardinality(M))
C20Part(e, n) ==   \* particle array n
  LET f == e.pfile[n]  ds == f.ds  mm == e.mem.pa[n]
      at == RangeOf(k.pvars[n]) \cap RangeOf(mm.at)
      col(a) == CHOOSE i \in DOMAIN mm.at : mm.at[i] = a
      N == Len(mm.v)
      rowf(i) == << SubSeq(ds.coordinates.v[i], 1, 3), [ a \in at |-> ds[a].v[i] ] >>
      rowm(i) == << SubSeq(mm.v[i], 1, 3), [ a \in at |-> mm.v[i][3 + col(a)] ] >>
      cnt(fn(_), r) == Cardinality({ i \in 1..N : fn(i) = r })
  IN /\ Part("particle datasets", DOMAIN ds = {"coordinates"} \cup at)
     /\ Part("one entry per particle", ds.coordinates.dim = <<N, 3>> /\ \A a \in at : ds[a].dim = <<N>>)
     /\ Part("particle types", FloatDs(ds.coordinates) /\ \A a \in at : FloatDs(ds[a]))
     /\ Part("every particle once with its attributes", { << rowf(i), cnt(rowf, rowf(i)) >> : i \in 1..N } = { << rowm(i), cnt(rowm, rowm(i)) >> : i \in 1..N })
XItem(it, b, ds) == /\ it.file = b \o ".h5" /\ it.path \in DOMAIN ds
                    /\ Prod(it.dims, 1) = Prod(ds[it.path].dim, 1)
                    /\ it.dims[1] = ds[it.path].dim[1]
                    /\ it.prec = ds[it.path].sz /\ it.float = ds[it.path].fl
C20Xmf(e) == LET x == e.xmf  ds == e.file.ds  N == Len(e.st.oct) * NCell IN
  /\ Part("descriptor: cells", x.topo = (IF g.dim = 2 THEN "Quadrilateral" ELSE "Hexahedron") /\ x.n = N)
  /\ Part("descriptor: time", c.t = NoTime \/ (x.tlo <= c.t /\ c.t <= x.thi))
  /\ Part("descriptor: items", \A i \in DOMAIN x.items : XItem(x.items[i], e.base, ds))
  /\ Part("descriptor: everything listed once",
          { << x.items[i].role, x.items[i].path >> : i \in DOMAIN x.items } =
             { <<"topology", "connectivity">>, <<"geometry", "coordinates">> } \cup { << v, v >> : v \in DOMAIN ds \ {"coordinates", "connectivity"} }
          /\ Len(x.items) = Cardinality(DOMAIN ds))
C20PXmf(e, n) == LET x == e.pxmf[n]  ds == e.pfile[n].ds IN
  /\ Part("particle descriptor", x.topo = "Polyvertex" /\ x.n = Len(e.mem.pa[n].v))
  /\ Part("particle descriptor: items", \A i \in DOMAIN x.items : XItem(x.items[i], x.base, ds))
  /\ Part("particle descriptor: everything listed once",
          { << x.items[i].role, x.items[i].path >> : i \in DOMAIN x.items } = { <<"geometry", "coordinates">> } \cup { << v, v >> : v \in DOMAIN ds \ {"coordinates"} }
          /\ Len(x.items) = Cardinality(DOMAIN ds))
C20(e) ==
  /\ (e.op = "out" /\ Has(e, "file")) =>
       /\ Part("the file exists", e.file.exists = 1)
       /\ C20File(e)
       /\ Part("particle files", \A n \in DOMAIN e.pfile : e.pfile[n].exists = (IF n \in DOMAIN k.pvars THEN 1 ELSE 0))
       /\ \A n \in DOMAIN e.pfile : n \in DOMAIN k.pvars => C20Part(e, n)
       /\ Has(e, "xmf") => C20Xmf(e)
       /\ Has(e, "pxmf") => \A n \in DOMAIN e.pxmf : C20PXmf(e, n)
  /\ (e.op = "end" /\ Has(e, "main")) =>
       LET outs == SelectSeq(SubSeq(Trace, run0, l), LAMBDA x : x.op = "out" /\ Has(x, "base")) IN
       Part("the main descriptor lists every output once, in order", e.main = [ i \in DOMAIN outs |-> outs[i].base \o ".xmf" ])

Check(e, op) == CASE Prop = "C16" -> C16(e, op)
                  [] Prop = "C17" -> C17(e)
                  [] Prop = "C15" -> C15(e)
                  [] Prop = "C19" -> C19(e)
                  [] Prop = "C20" -> C20(e)
                  [] Prop = "C11" -> C11(e)
                  [] OTHER -> FALSE

Fresh == [limits |-> {}, limitb |-> {}, ks |-> {}, marks |-> None, balanced |-> FALSE, ending |-> FALSE, sig |-> 0]
Init == /\ l = 1 /\ g = None /\ k = None /\ c = None /\ todo = << >> /\ m = Fresh /\ s = None /\ base = 0 /\ run0 = 0 /\ kind = "none"

(* what follows once the calls of a step are done; a time that is no multiple of the unit is taken from the next event *)
StepDone(mm) == IF NewTime(mm) = NoTime THEN [Advance([c EXCEPT !.t = 0], 0) EXCEPT !.t = NoTime, !.pt = NoTime] ELSE Advance(c, NewTime(mm))
Ends(mm, cc) == \/ mm.sig = 1
                \/ IF cc.t # NoTime THEN Stopped(k, cc)
                   ELSE \/ k.nstep > 0 /\ cc.i >= k.nstep
                        \/ k.useEnd = 1 /\ l < Len(Trace) /\ Has(Trace[l + 1], "tb") /\ ~Less(Trace[l + 1].tb, k.tEndb)
Refill(mm, cc) == IF Ends(mm, cc) THEN EndOps(k) ELSE StepOps(k, cc)

RunEvent(e) ==
  /\ g' = Geo(e) /\ k' = e.cfg /\ c' = StartClock(e.cfg) /\ todo' = <<"init", "ready">> /\ m' = Fresh /\ s' = None
  /\ kind' = e.kind /\ run0' = l /\ base' = IF e.kind = "base" THEN l ELSE base
Op == IF todo = << >> THEN "nothing" ELSE Head(todo)
CallEvent(e) ==
  /\ Check(e, Op) = TRUE
  /\ LET rest == IF todo = << >> THEN << >> ELSE Tail(todo)
         m1 == IF e.op = "dt" THEN [m EXCEPT !.limits = @ \cup {e.dt}, !.limitb = @ \cup {e.dtb}, !.ks = @ \cup {e.k}, !.sig = IF e.sig = 1 THEN 1 ELSE @, !.balanced = @ /\ ~Has(e, "st")]
               ELSE IF e.op = "ref" THEN [m EXCEPT !.marks = IF e.known = 1 THEN << e >> ELSE None, !.balanced = FALSE]
               ELSE [m EXCEPT !.balanced = @ /\ ~Has(e, "st")]
         stepend == rest = << >> /\ e.op \notin {"end", "ready"}
         c1 == IF e.op = "ready" THEN c ELSE StepDone(m1)
     IN IF e.op = "ready" \/ (stepend /\ ~m.ending)
        THEN /\ c' = c1 /\ todo' = Refill(m1, c1)
             /\ m' = [Fresh EXCEPT !.ending = Ends(m1, c1), !.balanced = (e.op # "ready" /\ LbDue(k, c))]
        ELSE /\ c' = c /\ todo' = rest /\ m' = m1
  /\ s' = IF e.op \in {"hyd"} \cup Sources THEN IF Len(todo) > 1 /\ todo[2] \in Sources THEN e.st ELSE AfterHydro(e.st) ELSE IF e.op = "dens" THEN AfterDens(e.st) ELSE IF e.op = "grav" THEN AfterGrav(e.st) ELSE IF Has(e, "st") THEN e.st ELSE s
  /\ UNCHANGED << g, k, base, run0, kind >>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN IF e.op = "run" THEN RunEvent(e) ELSE CallEvent(e)
Spec == Init /\ [][Next]_vars
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            IF d = Len(Trace) THEN PrintT(<<"ACCEPTED", d>>)
            ELSE PrintT(<<"STOPPED", d, Len(Trace), Trace[d + 1].op>>) /\ FALSE
==============================================================================
