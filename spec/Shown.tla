-------------------------------- MODULE Shown --------------------------------
(* What the printed description of an object says: which parameters it names and *)
(* their values (base units).  Names of a region's distributions are prefixed    *)
(* with the particle: e.k, p.gamma_min ...                                       *)
EXTENDS Lib, FiniteSets

ShapeName(cls) ==
  CASE cls = "PowerLaw" -> "power law"
    [] cls = "BrokenPowerLaw" -> "broken power law"
    [] cls = "LogParabola" -> "log parabola"
    [] cls = "ExpCutoffPowerLaw" -> "exponential cut-off power law"
    [] cls = "ExpCutoffBrokenPowerLaw" -> "exponential cut-off broken power law"
    [] cls = "InterpolatedDistribution" -> "interpolated energy distribution"
    [] OTHER -> ""
ShapeParams(cls) ==
  CASE cls = "PowerLaw" -> {"k", "p", "gamma_min", "gamma_max"}
    [] cls = "BrokenPowerLaw" -> {"k", "p1", "p2", "gamma_b", "gamma_min", "gamma_max"}
    [] cls = "LogParabola" -> {"k", "p", "q", "gamma_0", "gamma_min", "gamma_max"}
    [] cls = "ExpCutoffPowerLaw" -> {"k", "p", "gamma_c", "gamma_min", "gamma_max"}
    [] cls = "ExpCutoffBrokenPowerLaw" -> {"k", "p1", "p2", "gamma_c", "gamma_b", "gamma_min", "gamma_max"}
    [] cls = "InterpolatedDistribution" -> {"norm", "gamma_min", "gamma_max"}
    [] OTHER -> {}
Particle(m) == IF m = "p" THEN "protons" ELSE "electrons"
\* <<section, name>>; section "" is the object itself, "e" and "p" a region's distributions
RegionParams == {"R_b", "t_var", "V_b", "z", "d_L", "delta_D", "Gamma", "Beta", "theta_s", "B", "xi"}
TargetParams(k) ==
  CASE k = "SSDisk" -> {"M_BH", "L_disk", "eta", "m_dot", "R_in", "R_out"}
    [] k = "SphericalShellBLR" -> {"L_disk", "xi_line", "lambda", "R_line"}
    [] k = "RingDustTorus" -> {"L_disk", "xi_dt", "T_dt", "R_dt"}
    [] OTHER -> {}
DistShown(d, n) == IF n = "norm" THEN d.norm ELSE d[n]
RegionShown(b, n) ==
  CASE n = "R_b" -> b.R_b  [] n = "t_var" -> TvarDays(b)  [] n = "V_b" -> Vb(b)  [] n = "z" -> b.z
    [] n = "d_L" -> b.dL  [] n = "delta_D" -> b.delta_D  [] n = "Gamma" -> b.Gamma
    [] n = "Beta" -> BetaOf(b.Gamma)  [] n = "theta_s" -> ThetaDeg(b)  [] n = "B" -> b.B  [] n = "xi" -> b.xi
TargetShown(t, n) ==
  CASE n = "M_BH" -> t.M  [] n = "L_disk" -> t.L  [] n = "eta" -> t.eta  [] n = "m_dot" -> Mdot(t)
    [] n = "R_in" -> RinCm(t)  [] n = "R_out" -> RoutCm(t)
    [] n \in {"xi_line", "xi_dt"} -> t.xi  [] n = "R_line" -> t.R  [] n = "T_dt" -> t.T  [] n = "R_dt" -> TorusR(t)
    [] n = "lambda" -> R(LineTable[t.line][1]) \otimes R("1e-8")

Sections(env, o) ==     \* section -> the object it describes
  IF o.kind = "Blob"
  THEN ("" :> o) @@ ("e" :> Ne(env, o)) @@ (IF o.n_p = "none" THEN <<>> ELSE ("p" :> Np(env, o)))
  ELSE ("" :> o)
ParamsOf(o) ==
  IF o.kind = "Blob" THEN RegionParams ELSE IF o.kind \in DistClasses THEN ShapeParams(o.kind) ELSE TargetParams(o.kind)
ShownOf(o, n) ==
  IF o.kind = "Blob" THEN RegionShown(o, n) ELSE IF o.kind \in DistClasses THEN DistShown(o, n) ELSE TargetShown(o, n)
\* a.names: <<section, name>> in the order printed; a.half: half a unit in the last printed place
Described(env, o, a) == \A k \in 1..Len(a.names) :
  a.names[k][1] \in DOMAIN Sections(env, o) /\ a.names[k][2] \in ParamsOf(Sections(env, o)[a.names[k][1]])
ExpectShown(env, o, a) ==
  ExFs(Tup([k \in 1..Len(a.names) |->
         IF a.names[k][1] \in DOMAIN Sections(env, o) /\ a.names[k][2] \in ParamsOf(Sections(env, o)[a.names[k][1]])
         THEN ShownOf(Sections(env, o)[a.names[k][1]], a.names[k][2]) ELSE R("nan")]),
       T6, a.half)
\* every parameter is named once; particle and shape of every distribution are right
ShownRelations(env, o, a) ==
  LET S == Sections(env, o) IN
  <<<<"every parameter is named",
      \A s \in DOMAIN S : \A n \in ParamsOf(S[s]) : Cardinality({k \in 1..Len(a.names) : a.names[k] = <<s, n>>}) = 1>>,
    <<"kind of distribution",
      \A s \in DOMAIN S : S[s].kind \in DistClasses /\ ShapeName(S[s].kind) # "" =>
        <<s, Particle(S[s].mass), ShapeName(S[s].kind)>> \in {a.shapes[k] : k \in 1..Len(a.shapes)}>>,
    <<"line", o.kind = "SphericalShellBLR" => a.line = o.line>>>>
=============================================================================
