----------------------------- MODULE ConfTrace ------------------------------
(* Recorded uses of the configuration map and of the module factories, against Conf.tla *)
EXTENDS Conf, Json
CONSTANT Prop
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l,      \* next line
          map, saved,
          fac,    \* factory -> id -> class
          types   \* real factory -> id -> name of the class made
vars == << l, map, saved, fac, types >>
Part(n, b) == IF b THEN TRUE ELSE (PrintT(<<"REJECTED", Prop, l, n>>) /\ FALSE)
All(r) == \A i \in DOMAIN r : r[i] = r[1]
RangeOf(f) == { f[x] : x \in DOMAIN f }
Empty == << >>
IniSection == <<105, 110, 105>>
NoneId == <<110, 111, 110, 101>>

(* modules a user may name in a configuration *)
Modules == [
  GravitySolver |-> {"GravitySolver_constant", "GravitySolver_point_mass", "GravitySolver_cg"},
  ParticleUpdate |-> {"ParticleUpdate_tracers_move", "ParticleUpdate_NGP_move", "ParticleUpdate_NGP_density", "ParticleUpdate_CIC_move", "ParticleUpdate_CIC_density"},
  ParabolicUpdate |-> {"ParabolicUpdate_explicit"},
  HydroUpdate |-> {"HydroUpdate_hancock_oneneighbor", "MHDUpdate_hancock_oneneighbor", "HydroUpdate_RK2", "MHDUpdate_RK2", "GLMMHDUpdate_RK2", "HydroUpdate_legacy",
                   "HydroUpdate_hancock", "MHDUpdate_hancock", "HydroUpdate_euler", "MHDUpdate_euler", "GLMMHDUpdate_euler"},
  InitialConditions |-> {"rayleigh_taylor", "orszag_tang", "orszag_tang_glm", "riemann2d", "simple_particles", "MHD_blast", "MHD_blast_glm", "C91", "tri_layer", "grafic_fields",
                         "MHD_rotor", "MHD_rotor_glm", "kelvin_helmholtz", "blast", "particle_grid", "implode", "restart", "sod", "tiled_restart"},
  IOManager |-> {"IOManager_hdf5", "IOManager_checkpoint"},
  MapUserData |-> {"MapUserData_mean"},
  Compute_dt |-> {"Compute_dt_legacy", "Compute_dt_parabolic", "Compute_dt_cosmology", "Compute_dt_hydro", "Compute_dt_particle_velocity"},
  RefineCondition |-> {"RefineCondition_downflows", "RefineCondition_legacy", "RefineCondition_mass", "RefineCondition_pseudo_gradient", "RefineCondition_second_derivative_error"},
  CoolingUpdate |-> {"CoolingUpdate_FF"} ]
(* modules that read files when they are made *)
NeedsFile == {"restart", "tiled_restart", "grafic_fields"}
ToStr(k) == ToString(k)

C18(e) ==
  CASE e.op = "parse" -> LET p == Parse(e.t) IN Part("the same on all processes", All(e.res)) /\ Part("which texts are accepted", (e.res[1] = 1) = p.ok)
    [] e.op = "has" -> Part("the same on all processes", All(e.res)) /\ Part("presence", (e.res[1] = 1) = (<<Lower(e.s), Lower(e.n)>> \in DOMAIN map))
    [] e.op = "get" ->
         LET key == <<Lower(e.s), Lower(e.n)>>  r == e.res[1] IN
         /\ Part("the same on all processes", All(e.res))
         /\ IF key \in DOMAIN map
            THEN LET want == Read(e.ty, map[key]) IN
                 /\ Part("malformed values are refused, others accepted", (r.ok = 1) = want.ok)
                 /\ want.ok => Part("the value of the text", Val(e.ty, r.v) = want)
                 /\ (map[key].k = "def" /\ map[key].ty = e.ty) => Part("exactly the default that was used before", r.b = map[key].b)
            ELSE IF "d" \in DOMAIN e
            THEN Part("the default when absent", r.ok = 1 /\ Val(e.ty, r.v) = Kept(e.ty, Val(e.ty, e.d)))
            ELSE Part("absent and without default is refused", r.ok = 0)
    [] e.op = "save" ->
         LET p == Parse(e.res[1]) IN
         /\ Part("the same on all processes", All(e.res))
         /\ Part("the written text is well formed", p.ok)
         /\ Part("every value is written", DOMAIN map \subseteq DOMAIN p.map)
         /\ Part("nothing else is written", \A x \in DOMAIN p.map : x \in DOMAIN map \/ x[1] = IniSection)
         /\ Part("the written values", \A x \in DOMAIN map : IF map[x].k = "text" THEN p.map[x] = map[x].t ELSE Kept(map[x].ty, Conv(map[x].ty, p.map[x])) = map[x].v)
    [] e.op = "reload" -> Part("the written text is read back", \A i \in DOMAIN e.res : e.res[i] = 1)
    [] OTHER -> TRUE

Ids(f) == IF f \in DOMAIN fac THEN fac[f] ELSE << >>
C24(e) ==
  CASE e.op = "reg" -> Part("registered once, and not as 'none'", \A i \in DOMAIN e.res : (e.res[i] = 1) = (e.id # NoneId /\ e.id \notin DOMAIN Ids(e.f)))
    [] e.op = "make" -> Part("the module of that name", \A i \in DOMAIN e.res : e.res[i] =
                             (IF e.id = NoneId THEN "n" ELSE IF e.id \in DOMAIN Ids(e.f) THEN ToStr(Ids(e.f)[e.id]) ELSE "x"))
    [] e.op = "ids" -> Part("the list of names", \A i \in DOMAIN e.res : RangeOf(e.res[i]) = DOMAIN Ids(e.f) /\ Len(e.res[i]) = Cardinality(DOMAIN Ids(e.f)))
    [] e.op = "rids" -> Part("the documented modules are available", \A i \in DOMAIN e.res : Modules[e.f] \subseteq RangeOf(e.res[i]))
    [] e.op = "rmake" ->
         /\ Part("the same on all processes", All(e.res))
         /\ IF e.id = "none" THEN Part("'none' makes nothing", e.res[1] = "null")
            ELSE IF e.id \notin Modules[e.f] THEN Part("unknown names are refused", e.res[1] = "refused")
            ELSE /\ Part("known names make something", e.id \in NeedsFile \/ e.res[1] \notin {"null", "refused"})
                 /\ (e.id \notin NeedsFile /\ e.f \in DOMAIN types) => Part("different names make different modules", \A x \in DOMAIN types[e.f] : x = e.id \/ types[e.f][x] # e.res[1])
    [] e.op = "loop" -> Part("unknown modules are refused before the first step", \A i \in DOMAIN e.res : (e.res[i] = 1) = (e.id = "none" \/ e.id \in Modules[e.key]))
    [] OTHER -> TRUE
Ok(e) == CASE Prop = "C18" -> C18(e) [] Prop = "C24" -> C24(e)

Init == l = 1 /\ map = Empty /\ saved = Empty /\ fac = Empty /\ types = Empty
Step(e) ==
  /\ map' = CASE e.op = "init" -> Empty
              [] e.op = "parse" -> (LET p == Parse(e.t) IN IF p.ok THEN OfText(p.map) ELSE map)
              [] e.op = "get" -> (LET key == <<Lower(e.s), Lower(e.n)>> IN
                                  IF key \in DOMAIN map \/ "d" \notin DOMAIN e THEN map
                                  ELSE (key :> [k |-> "def", ty |-> e.ty, v |-> Kept(e.ty, Val(e.ty, e.d)), b |-> e.res[1].b]) @@ map)
              [] e.op = "reload" -> saved
              [] OTHER -> map
  /\ saved' = IF e.op = "save" THEN map ELSE saved
  /\ fac' = IF e.op = "init" THEN Empty ELSE IF e.op = "reg" /\ e.id # NoneId /\ e.id \notin DOMAIN Ids(e.f)
            THEN (e.f :> ((e.id :> e.k) @@ Ids(e.f))) @@ fac ELSE fac
  /\ types' = IF e.op = "init" THEN Empty ELSE IF e.op = "rmake" /\ e.res[1] \notin {"null", "refused"}
              THEN (e.f :> ((e.id :> e.res[1]) @@ (IF e.f \in DOMAIN types THEN types[e.f] ELSE << >>))) @@ types ELSE types
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN (Ok(e) = TRUE) /\ Step(e)
Spec == Init /\ [][Next]_vars
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            IF d = Len(Trace) THEN PrintT(<<"ACCEPTED", d>>)
            ELSE PrintT(<<"STOPPED", d, Len(Trace), Trace[d + 1].op>>) /\ FALSE
=============================================================================
