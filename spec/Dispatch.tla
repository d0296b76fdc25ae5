------------------------------- MODULE Dispatch -------------------------------
(* Which part of the specification judges which observation.                     *)
EXTENDS Shown

Tup2Set(s) == {s[j] : j \in 1..Len(s)}

TargetKinds == {"CMB", "PointSourceBehindJet", "SSDisk", "SphericalShellBLR", "RingDustTorus"}
ProcKinds == {"Synchrotron", "ProtonSynchrotron", "SynchrotronSelfCompton", "ExternalCompton"}
FluxObs == {"sed_luminosity", "diff_energy_flux", "energy_flux_integral", "flux_integral",
            "sed_peak_flux", "sed_peak_nu"}
\* repetitions: a.prev is the result recorded for the same call earlier (again), for the
\* frequencies one at a time (split) or with parameters in other units (units)
Repeats == {"again", "split", "units"}

Expected(env, ev) ==
  IF ev.what \in Repeats THEN ExF(ev.a.prev, ev.a.tol, Tiny)
  ELSE IF Has(ev, "sane") THEN Ex(ev.res, Zero)
  ELSE IF ev.id = "lib" THEN ExpectLib(ev.what, ev.a)
  ELSE
  LET o == env[ev.id] IN
  CASE ev.what = "show" -> ExpectShown(env, o, ev.a)
    [] o.kind \in ProcKinds /\ ev.what \in FluxObs -> ExpectFlux(env[o.blob], ev.what, ev.a)
    [] o.kind \in DistClasses -> ExpectDist(o, ev.what, ev.a)
    [] o.kind = "Blob" -> ExpectBlob(env, o, ev.what, ev.a)
    [] o.kind = "SpectralConstraints" -> ExpectConstraints(env, env[o.blob], ev.what, ev.a)
    [] o.kind = "Synchrotron" -> ExpectSynch(env, o, ev.what, ev.a)
    [] o.kind = "ProtonSynchrotron" -> ExpectProton(env, o, ev.what, ev.a)
    [] o.kind = "SynchrotronSelfCompton" -> ExpectSSC(env, o, ev.what, ev.a)
    [] o.kind = "ExternalCompton" -> ExpectEC(env, o, ev.what, ev.a)
    [] o.kind = "Rate" -> ExpectRate(env, o, ev.a)
    [] o.kind = "Absorption" -> ExpectAbs(env, o, ev.what, ev.a)
    [] o.kind = "EBL" ->
         ExFs(Map(ev.a.q, LAMBDA q : EblAt(env.tables[o.table], q)), R("1e-9"), Map(ev.a.q, EblFloor))
    [] o.kind \in TargetKinds -> ExpectTarget(env, o, ev.what, ev.a)

\* relations a result must satisfy by itself: sequence of <<name, holds>>
NonNeg(s) == \A i \in 1..Len(s) : IsFin(s[i]) /\ s[i] \succeq 0
Unit(s) == NonNeg(s) /\ \A i \in 1..Len(s) : s[i] \preceq 1
Relations(env, ev, ex) ==
  IF ev.id = "lib" \/ ev.what \in Repeats \/ (Has(ev, "sane") /\ env[ev.id].kind # "Absorption") THEN <<>>
  ELSE LET k == env[ev.id].kind IN
  CASE ev.what = "show" -> ShownRelations(env, env[ev.id], ev.a)
    [] k = "Absorption" /\ ev.what = "tau" -> <<<<"finite and not negative", NonNeg(ev.res)>>>>
    [] k = "Absorption" -> <<<<"between 0 and 1", Unit(ev.res)>>>>
    [] k \in ProcKinds /\ ev.what = "sed_flux" -> 
         <<<<"not negative", \A i \in 1..Len(ev.res) :
              IsFin(ev.res[i]) /\ ev.res[i] \succeq RNeg(FloorOf(ex, i))>>>>
    [] k \in TargetKinds /\ ev.what = "u" -> <<<<"not negative", NonNeg(ev.res)>>>>
    [] OTHER -> <<>>
=============================================================================
