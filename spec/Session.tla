------------------------------- MODULE Session -------------------------------
(* The state of a user session: every object ever created, with the parameters  *)
(* the specification says it has now.  Apply is the transition relation of the  *)
(* session (one event = one user action); it never looks at results.            *)
EXTENDS Opacity

Has(rec, f) == f \in DOMAIN rec
Get(rec, f, dflt) == IF Has(rec, f) THEN rec[f] ELSE dflt

\* ------------------------------------------------------- documented defaults
DistDefaults(cls) ==
  CASE cls = "PowerLaw" ->
         [k |-> R("1e-13"), p |-> R("2.1"), gamma_min |-> 10, gamma_max |-> R("1e5")]
    [] cls = "BrokenPowerLaw" ->
         [k |-> R("1e-13"), p1 |-> R("2.0"), p2 |-> R("3.0"), gamma_b |-> R("1e3"),
          gamma_min |-> 10, gamma_max |-> R("1e7")]
    [] cls = "LogParabola" ->
         [k |-> R("1e-13"), p |-> R("2.0"), q |-> R("0.1"), gamma_0 |-> R("1e3"),
          gamma_min |-> 10, gamma_max |-> R("1e7")]
    [] cls = "ExpCutoffPowerLaw" ->
         [k |-> R("1e-13"), p |-> R("2.1"), gamma_c |-> R("1e3"), gamma_min |-> 10, gamma_max |-> R("1e5")]
    [] cls = "ExpCutoffBrokenPowerLaw" ->
         [k |-> R("1e-13"), p1 |-> R("2.0"), p2 |-> R("3.0"), gamma_c |-> R("1e5"),
          gamma_b |-> R("1e3"), gamma_min |-> 10, gamma_max |-> R("1e7")]
    [] cls = "InterpolatedDistribution" -> [norm |-> 1, interp |-> "cubic"]
    [] cls = "EmptyDistribution" -> [gamma_min |-> 1, gamma_max |-> R("1e20")]
DistClasses == {"PowerLaw", "BrokenPowerLaw", "LogParabola", "ExpCutoffPowerLaw",
                "ExpCutoffBrokenPowerLaw", "InterpolatedDistribution", "EmptyDistribution"}
BlobDefaults == [R_b |-> R("1e16"), z |-> R("0.069"), delta_D |-> 10, Gamma |-> 10, B |-> 1,
                 xi |-> 1, ge |-> 200, gp |-> 200, n_e |-> "default", n_p |-> "none"]

\* ------------------------------------------------------- construction
MkDist(cls, par) ==
  LET d == par @@ DistDefaults(cls) @@ [kind |-> cls, mass |-> "e", rule |-> "trapz"]
  IN  IF cls = "InterpolatedDistribution"
      THEN LET kn == Knots(d) IN [gamma_min |-> kn.lo, gamma_max |-> kn.hi] @@ d
      ELSE d

\* normalisation constructors: k such that the requested total is met
NormFrom(via, tot, d1, V) ==
  CASE via = "from_total_density" ->
         tot \oslash DistIntegral(d1, d1.gamma_min, d1.gamma_max, 0)
    [] via = "from_total_energy_density" ->
         tot \oslash (mc2(d1.mass) \otimes DistIntegral(d1, d1.gamma_min, d1.gamma_max, 1))
    [] via = "from_total_energy" ->
         (tot \oslash V) \oslash (mc2(d1.mass) \otimes DistIntegral(d1, d1.gamma_min, d1.gamma_max, 1))
    [] via = "from_density_at_gamma_1" -> tot \oslash Dens(d1, One)

NewObj(ev) ==
  CASE ev.cls \in DistClasses ->
         IF Has(ev, "via")
         THEN LET d1 == MkDist(ev.cls, ev.par @@ [k |-> One])
              IN  [k |-> NormFrom(ev.via, ev.tot, d1, Get(ev, "V", One))] @@ d1
         ELSE MkDist(ev.cls, ev.par)
    [] ev.cls = "Blob" ->
         [kind |-> "Blob", dL |-> ev.dL] @@ ev.par @@ BlobDefaults
    [] OTHER -> [kind |-> ev.cls] @@ ev.par

\* a region created without an electron distribution owns a default one
DefId(id) == id \o ".default"
Apply(env, ev) ==
  CASE ev.op = "reset" -> IF "tables" \in DOMAIN env THEN [tables |-> env.tables] ELSE <<>>
    [] ev.op = "tables" -> ("tables" :> ev.tables) @@ env     \* tabulated data used by the session
    [] ev.op = "new" /\ ev.err = "" ->
         LET o == NewObj(ev) IN
         IF ev.cls = "Blob" /\ o.n_e = "default"
         THEN (ev.id :> ([n_e |-> DefId(ev.id)] @@ o))
              @@ (DefId(ev.id) :> MkDist("PowerLaw", <<>>)) @@ env
         ELSE (ev.id :> o) @@ env
    [] ev.op = "set" -> (ev.id :> ((ev.f :> ev.v) @@ env[ev.id])) @@ env
    [] ev.op = "doppler" ->
         (ev.id :> ([Gamma |-> ev.Gamma, delta_D |-> DopplerFrom(ev.Gamma, ev.theta)] @@ env[ev.id])) @@ env
    [] OTHER -> env

\* ------------------------------------------------------- dereferencing
Ne(env, b) == env[b.n_e]
Np(env, b) == IF b.n_p = "none" THEN NoDist ELSE env[b.n_p]
=============================================================================
