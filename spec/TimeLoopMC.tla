------------------------------ MODULE TimeLoopMC ------------------------------
(***************************************************************************)
(* The schedule of TimeLoop, exhaustively for small configurations: runs      *)
(* end, never pass the end time, write what they have to write, and a run     *)
(* restarted from any of its checkpoints goes through the same calls.         *)
(***************************************************************************)
EXTENDS TimeLoop, TLC, FiniteSets
CONSTANTS Freqs, Ends, Steps, Dts, Starts
VARIABLES k, c, log, over
vars == << k, c, log, over >>
Configs == { x \in [enOut : {0, 1}, enCk : {0, 1}, out : Freqs, ck : Freqs, amr : Freqs, lb : {0, 2}, outTs : {0, 2}, ckTs : {0, 3}, nstep : Steps, useEnd : {0, 1},
               tEnd : Ends, ndt : {1}, grav : {0}, dens : {0}, move : {1}, hydro : {1}, visc : {1}, cond : {0}, cool : {1}, i0 : Starts, t0 : Starts] :
               /\ x.t0 = x.i0 /\ (x.useEnd = 0 => x.tEnd = CHOOSE e \in Ends : TRUE) /\ (x.useEnd = 1 \/ x.nstep > 0)
               /\ (x.enOut = 0 => x.out = 0 /\ x.outTs = 0) /\ (x.enCk = 0 => x.ck = 0 /\ x.ckTs = 0) }
Init == k \in Configs /\ c = StartClock(k) /\ log = << >> /\ over = FALSE
Step(d) == /\ ~over /\ ~Stopped(k, c)
           /\ LET dt == StepDt(k, c, {d}) IN
              /\ log' = Append(log, [c |-> c, ops |-> StepOps(k, c), dt |-> dt, lb |-> LbDue(k, c)])
              /\ c' = Advance(c, dt)
           /\ UNCHANGED << k, over >>
End == /\ ~over /\ Stopped(k, c) /\ over' = TRUE
       /\ log' = Append(log, [c |-> c, ops |-> EndOps(k), dt |-> 0, lb |-> FALSE])
       /\ UNCHANGED << k, c >>
Next == End \/ \E d \in Dts : Step(d)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>over
Has(q, x) == \E i \in DOMAIN q : q[i] = x
(* C17 *)
NotPastEnd == k.useEnd = 1 /\ k.t0 <= k.tEnd => c.t <= k.tEnd
Forward == \A i \in DOMAIN log : log[i].c.i = k.i0 + i - 1 /\ (i < Len(log) /\ ~over => log[i].dt >= 0)
EndsAtEnd == over /\ k.useEnd = 1 /\ ~(k.nstep > 0 /\ c.i >= k.nstep) /\ k.t0 <= k.tEnd => c.t = k.tEnd
StepLimit == k.nstep > 0 /\ k.i0 <= k.nstep => c.i <= k.nstep
(* C16 *)
OutputsDue == \A i \in DOMAIN log : LET x == log[i] IN
   /\ k.enOut = 1 /\ i = 1 => Has(x.ops, "out")
   /\ k.enOut = 1 /\ k.out > 0 /\ x.c.i % k.out = 0 /\ i > 1 => Has(x.ops, "out")
   /\ k.enOut = 1 /\ over /\ i = Len(log) => Has(x.ops, "out")
   /\ k.enCk = 1 /\ k.ck > 0 /\ x.c.i % k.ck = 0 /\ i > 1 => Has(x.ops, "ckpt")
   /\ k.enOut = 0 => ~Has(x.ops, "out")
   /\ k.enCk = 0 => ~Has(x.ops, "ckpt")
   /\ k.enOut = 1 /\ i > 1 /\ i < Len(log) /\ Has(x.ops, "out") => (k.out > 0 /\ x.c.i % k.out = 0) \/ k.outTs > 0
   /\ (~over \/ i < Len(log)) => (Has(x.ops, "ref") = (k.amr > 0 /\ (x.c.i + 1) % k.amr = 0))
   /\ (~over \/ i < Len(log)) => (x.lb = (k.lb > 0 /\ (x.c.i + 1) % k.lb = 0))
(* an output never misses a multiple of its time interval by more than the step that passed it *)
TimeOutputs == \A i \in 2..Len(log) : k.enOut = 1 /\ k.outTs > 0 /\ (\E n \in 1..20 : log[i - 1].c.t < n * k.outTs /\ n * k.outTs <= log[i].c.t)
                 => Has(log[i].ops, "out")
(* C15: from a checkpoint on, a restarted run makes the same calls; it writes an output first, and not the checkpoint again *)
Drop(q, S) == SelectSeq(q, LAMBDA x : x \notin S)
RECURSIVE Rerun(_, _, _)
Rerun(kk, cc, i) == IF i > Len(log) THEN TRUE
   ELSE IF i = Len(log) /\ over THEN Stopped(kk, cc) /\ log[i].ops = EndOps(kk)
   ELSE /\ ~Stopped(kk, cc)
        /\ IF cc.first THEN Drop(StepOps(kk, cc), {"out", "ckpt"}) = Drop(log[i].ops, {"out", "ckpt"}) ELSE StepOps(kk, cc) = log[i].ops
        /\ LbDue(kk, cc) = log[i].lb
        /\ Rerun(kk, Advance(cc, log[i].dt), i + 1)
RestartSame == over => \A j \in DOMAIN log : Has(log[j].ops, "ckpt") =>
   LET kk == [k EXCEPT !.i0 = log[j].c.i, !.t0 = log[j].c.t] IN Rerun(kk, StartClock(kk), j)
(* the configuration never changes what the other modules do *)
PhysicsAlways == \A i \in DOMAIN log : (~over \/ i < Len(log)) => Drop(log[i].ops, {"out", "ckpt", "ref", "sav", "rem"}) = <<"dt", "move", "hyd", "visc", "cool">>
===============================================================================
