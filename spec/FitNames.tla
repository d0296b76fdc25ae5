------------------------------- MODULE FitNames -------------------------------
(* Parameters of the fit models: names in their order, which loader sets which,    *)
(* as documented (agnpy.fit).  A configuration c: scen "ssc" | "ec", tgts: the     *)
(* targets as given, shape: class of the distribution, backend, ssa.               *)
EXTENDS Integers, Sequences, FiniteSets
Ends == <<"log10_gamma_min", "log10_gamma_max">>
ShapeP(s) ==
  CASE s = "PowerLaw" -> <<"log10_k", "p">> \o Ends
    [] s = "BrokenPowerLaw" -> <<"log10_k", "p1", "p2", "log10_gamma_b">> \o Ends
    [] s = "LogParabola" -> <<"log10_k", "p", "q", "log10_gamma_0">> \o Ends
    [] s = "ExpCutoffPowerLaw" -> <<"log10_k", "p", "log10_gamma_c">> \o Ends
    [] s = "ExpCutoffBrokenPowerLaw" -> <<"log10_k", "p1", "p2", "log10_gamma_c", "log10_gamma_b">> \o Ends
    [] s = "InterpolatedDistribution" -> <<"log10_norm">> \o Ends
Shapes == {"PowerLaw", "BrokenPowerLaw", "LogParabola", "ExpCutoffPowerLaw", "ExpCutoffBrokenPowerLaw", "InterpolatedDistribution"}
RegionP(scen) == <<"z", "delta_D", "log10_B", "t_var">> \o (IF scen = "ec" THEN <<"mu_s", "log10_r">> ELSE <<>>)
DiskP == <<"log10_L_disk", "M_BH", "m_dot", "R_in", "R_out">>
BlrP == <<"xi_line", "lambda_line", "R_line">>
DtP == <<"xi_dt", "T_dt", "R_dt">>
In(x, s) == \E k \in 1..Len(s) : s[k] = x
TargetP(c) == IF c.scen = "ssc" THEN <<>>
              ELSE DiskP \o (IF In("blr", c.tgts) THEN BlrP ELSE <<>>) \o (IF In("dt", c.tgts) THEN DtP ELSE <<>>)
Names(c) == ShapeP(c.shape) \o RegionP(c.scen) \o TargetP(c)
NameSet(c) == LET n == Names(c) IN {n[k] : k \in 1..Len(n)}
SetOf(s) == {s[k] : k \in 1..Len(s)}
\* what a loader sets
RegionSet(c) == SetOf(RegionP(c.scen))
TargetSet(which) == SetOf(DiskP) \cup (IF "blr" \in which THEN SetOf(BlrP) ELSE {}) \cup (IF "dt" \in which THEN SetOf(DtP) ELSE {})
TargetLists == {<<"blr">>, <<"dt">>, <<"blr", "dt">>, <<"dt", "blr">>}
Configs == {[scen |-> "ssc", tgts |-> <<>>, shape |-> s, backend |-> b, ssa |-> a] : s \in Shapes, b \in {"gammapy", "sherpa"}, a \in BOOLEAN}
           \cup {[scen |-> "ec", tgts |-> t, shape |-> s, backend |-> b, ssa |-> a] :
                   t \in TargetLists, s \in Shapes, b \in {"gammapy", "sherpa"}, a \in BOOLEAN}
=============================================================================
