------------------------------ MODULE TimeLoop ------------------------------
(***************************************************************************)
(* The schedule of a Dyablo run: which module is called when, how the clock *)
(* advances, when the run ends.  Times are integers (a fixed fraction of    *)
(* the time unit); a frequency or an interval that is <= 0 is disabled.     *)
(*   k  configuration: enOut, enCk (0/1), out, ck, amr, lb (iterations),    *)
(*      outTs, ckTs (times), nstep, useEnd, tEnd, ndt, grav, dens, move, hydro, visc, cond, cool, i0, t0 *)
(*   c  clock: i, t and their values at the previous iteration pi, pt;      *)
(*      first: the run has not done anything yet                            *)
(***************************************************************************)
EXTENDS Integers, Sequences

StartClock(k) == [i |-> k.i0, t |-> k.t0, pi |-> k.i0, pt |-> k.t0, first |-> TRUE]
(* a multiple of f was reached or passed going from a to b *)
Crossed(f, a, b) == IF f > 0 THEN (b \div f) > (a \div f) ELSE FALSE
OutDue(k, c) == k.enOut = 1 /\ (c.first \/ Crossed(k.out, c.pi, c.i) \/ Crossed(k.outTs, c.pt, c.t))
CkDue(k, c) == k.enCk = 1 /\ (Crossed(k.ck, c.pi, c.i) \/ Crossed(k.ckTs, c.pt, c.t))
AmrDue(k, c) == Crossed(k.amr, c.i, c.i + 1)
LbDue(k, c) == Crossed(k.lb, c.i, c.i + 1)
Stopped(k, c) == (k.nstep > 0 /\ c.i >= k.nstep) \/ (k.useEnd = 1 /\ c.t >= k.tEnd)

If(b, q) == IF b THEN q ELSE << >>
(* the module calls of the step that starts at c, and of the end of the run *)
StepOps(k, c) == If(OutDue(k, c), <<"out">>) \o If(CkDue(k, c), <<"ckpt">>) \o [ n \in 1..k.ndt |-> "dt" ]
                 \o If(k.grav = 1, If(k.dens = 1, <<"dens">>) \o <<"grav">>) \o If(k.move = 1, <<"move">>) \o If(k.hydro = 1, <<"hyd">> \o If(k.visc = 1, <<"visc">>) \o If(k.cond = 1, <<"cond">>) \o If(k.cool = 1, <<"cool">>)) \o If(AmrDue(k, c), <<"ref", "sav", "rem">>)
EndOps(k) == If(k.enOut = 1, <<"out">>) \o If(k.enCk = 1, <<"ckpt">>) \o <<"end">>

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
(* the time step, from the limits the modules gave *)
StepDt(k, c, limits) == LET d == MinOf(limits) IN IF k.useEnd = 1 /\ c.t + d > k.tEnd THEN k.tEnd - c.t ELSE d
Advance(c, d) == [i |-> c.i + 1, t |-> c.t + d, pi |-> c.i, pt |-> c.t, first |-> FALSE]
=============================================================================
