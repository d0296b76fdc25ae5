-------------------------------- MODULE Expect --------------------------------
(* What an observation must return, given the specified state.                   *)
EXTENDS Session

\* [v |-> expected values, tol |-> relative tolerance, floor |-> absolute floor]
Ex(v, tol) == [v |-> v, tol |-> tol, floor |-> Zero]
ExF(v, tol, floor) == [v |-> v, tol |-> tol, floor |-> floor]
\* a spectrum this faint comes from numbers which underflow somewhere in the sum
Faint == R("1e-120")
\* floors per element
ExFs(v, tol, fs) == [v |-> v, tol |-> tol, floor |-> Zero, floors |-> fs]
FloorOf(ex, j) == IF "floors" \in DOMAIN ex THEN ex.floors[j] ELSE ex.floor
T9 == R("1e-9")
T7 == R("1e-7")
T6 == R("1e-6")
T5 == R("1e-5")
Tiny == R("1e-200")

Map(s, f(_)) == Tup([i \in 1..Len(s) |-> f(s[i])])

\* a class-level evaluation names its parameters ("with"); otherwise they are the object's
ExpectDist(d0, what, a) ==
  LET d == IF Has(a, "with") THEN a["with"] @@ d0 ELSE d0 IN
  CASE what = "dens" ->
         Ex(IF a.nd = 0 THEN <<Dens(d, a.g[1])>> ELSE DensArr(d, a.g), T9)
    [] what = "ssa" ->
         LET kn == KnotsOf(d)
             v == IF a.nd = 0 THEN <<SSAK(d, kn, a.g[1])>> ELSE SSAArr(d, a.g)
             n == IF a.nd = 0 THEN <<Dens(d, a.g[1])>> ELSE DensArr(d, a.g)
         \* cancellation between slope and 2: floor relative to n/gamma
         IN  ExF(v, T9, R("1e-11") \otimes MaxAbs(Tup([i \in 1..Len(v) |-> n[i] \oslash a.g[i]])))
    [] what = "integrate" ->
         Ex(<<DistIntegral(d, IF IsReal(a.lo) THEN a.lo ELSE d.gamma_min,
                              IF IsReal(a.hi) THEN a.hi ELSE d.gamma_max, a.pow)>>, T7)
    [] what = "total" ->      \* the total requested at construction
         Ex(<<a.tot>>, T7)
    [] what = "par" -> Ex(<<d[a.f]>>, R("1e-12"))
    [] what = "isproton" -> Ex(<<IF d.mass = "p" THEN 1 ELSE 0, mc2(d.mass)>>, R("1e-12"))

ExpectBlob(env, b, what, a) ==
  LET ne == Ne(env, b) np == Np(env, b)
      S(x) == Ex(<<x>>, T7)
  IN
  CASE what = "V_b" -> S(Vb(b))
    [] what = "t_var" -> S(TvarDays(b))
    [] what = "Beta" -> S(BetaOf(b.Gamma))
    [] what = "mu_s" -> S(MuS(b))
    [] what = "theta_s" -> Ex(<<ThetaDeg(b)>>, T5)
    [] what = "delta_D" -> S(b.delta_D)
    [] what = "Gamma" -> S(b.Gamma)
    [] what = "B_cgs" -> S(b.B)
    [] what = "R_b" -> S(b.R_b)
    [] what = "d_L" -> S(b.dL)
    [] what = "gamma_e" -> Ex(GammaE(b, ne), T9)
    [] what = "gamma_p" -> Ex(GammaP(b, np), T9)
    [] what = "gamma_e_external_frame" -> Ex(GammaExt(b), T9)
    [] what = "N_e" -> Ex(Map(DensArr(ne, a.g), LAMBDA n : Vb(b) \otimes n), T7)
    [] what = "N_p" -> Ex(Map(DensArr(np, a.g), LAMBDA n : Vb(b) \otimes n), T7)
    [] what = "n_e_tot" -> S(NeTot(b, ne))
    [] what = "N_e_tot" -> S(Vb(b) \otimes NeTot(b, ne))
    [] what = "u_e" -> S(Ue(b, ne))
    [] what = "W_e" -> S(Vb(b) \otimes Ue(b, ne))
    [] what = "n_p_tot" -> S(NpTot(b, np))
    [] what = "N_p_tot" -> S(Vb(b) \otimes NpTot(b, np))
    [] what = "u_p" -> S(Up(b, np))
    [] what = "W_p" -> S(Vb(b) \otimes Up(b, np))
    [] what = "U_B" -> S(UB(b))
    [] what = "k_eq" -> S(Keq(b, ne, np))
    [] what = "P_jet_ke" -> S(PjetKe(b, ne, np))
    [] what = "P_jet_B" -> S(PjetB(b))
    [] what = "u_ph_synch" -> S(UphSynch(b, ne))
    [] what = "u_ph_synch_diff" ->
         Ex(Tup([i \in 1..Len(a.eps) |-> UphDiff(b, a.eps[i], a.sed[i])]), T7)

ExpectConstraints(env, b, what, a) ==
  LET ne == Ne(env, b) S(x) == Ex(<<x>>, T7)
      udt == TorusU(env[a.t], a.r, b, TRUE) IN
  CASE what = "gamma_max_larmor" -> S(GmaxLarmor(b))
    [] what = "gamma_max_ballistic" -> S(GmaxBallistic(b))
    [] what = "gamma_max_synch" -> S(GmaxSynch(b))
    [] what = "gamma_max_SSC" -> S(GmaxThomson(b, UphSynch(b, ne)))
    [] what = "gamma_break_synch" -> S(GbreakSynch(b))
    [] what = "gamma_break_SSC" -> S(GbreakThomson(b, UphSynch(b, ne)))
    [] what = "gamma_max_EC_DT" -> S(GmaxThomson(b, udt))
    [] what = "gamma_break_EC_DT" -> S(GbreakThomson(b, udt))

\* floors of values on the brink of underflow (log-log rule: whether an end is zero decides on the whole bin)
Brinks(rule, nus, f(_)) == Map(nus, LAMBDA x : IF rule = "loglog" THEN RMax(Faint, RAbs(f(x))) ELSE Faint)

ExpectSynch(env, s, what, a) ==
  LET b == env[s.blob] ne == Ne(env, b) IN
  CASE what = "sed_flux" ->
         ExFs(SynchSed(b, ne, a.nu, s.ssa, s.rule, GammaE(b, ne)), IF s.ssa THEN T5 ELSE T6,
              Brinks(s.rule, a.nu, LAMBDA x : SynchSed(b, ne, <<x>>, FALSE, "brink", GammaE(b, ne))[1]))
    [] what = "sed_flux_static" ->       \* the class-level evaluation on the default grid
         ExFs(SynchSed(b, ne, a.nu, a.ssa, a.rule, GamInt), IF a.ssa THEN T5 ELSE T6,
              Brinks(a.rule, a.nu, LAMBDA x : SynchSed(b, ne, <<x>>, FALSE, "brink", GamInt)[1]))
    [] what = "sed_flux_delta_approx" -> ExF(SynchDelta(b, ne, a.nu), T7, Faint)
    [] what = "tau_ssa" ->
         ExFs(Map(a.nu, LAMBDA x : TauSSA(b, ne, x, GammaE(b, ne), s.rule)), T6,
              Brinks(s.rule, a.nu, LAMBDA x : TauSSA(b, ne, x, GammaE(b, ne), "brink")))
    [] what = "electron_energy_loss_rate" -> Ex(Map(a.g, LAMBDA g : SynchLoss(b, g)), T7)
    [] what = "nu_synch_peak" -> Ex(Map(a.g, LAMBDA g : NuPeak(b.B, g, a.part)), T7)
ExpectProton(env, s, what, a) ==
  LET b == env[s.blob] np == Np(env, b) IN
  CASE what = "sed_flux" -> 
         ExFs(ProtonSynchSed(b, np, a.nu, s.rule, GammaP(b, np)), T6,
              Brinks(s.rule, a.nu, LAMBDA x : ProtonSynchSed(b, np, <<x>>, "brink", GammaP(b, np))[1]))
ExpectSSC(env, s, what, a) ==
  LET b == env[s.blob] ne == Ne(env, b) IN
  CASE what = "sed_flux" ->
         ExF(SscSed(b, ne, a.nu, s.ssa, s.rule, GammaE(b, ne)), IF s.ssa THEN T5 ELSE T6, Faint)
    [] what = "sed_flux_static" ->
         ExF(SscSed(b, ne, a.nu, a.ssa, a.rule, GamInt), IF a.ssa THEN T5 ELSE T6, Faint)
    [] what = "electron_energy_loss_rate" -> ExF(SscLoss(b, ne, a.g), T6, Tiny)
    [] what = "electron_energy_loss_rate_thomson" ->
         Ex(Map(a.g, LAMBDA g : SscLossThomson(b, ne, g)), T7)

\* ---------------------------------------------------------------- ready-made rate functions
\* a rate function keeps the process it was made from: losses are those of its region now
ExpectRate(env, o, a) ==
  IF o.law = "fermi" THEN Ex(Map(a.g, LAMBDA g : (g \otimes mec2) \oslash o.t), T9)
  ELSE
  LET b == env[env[o.proc].blob] IN
  CASE o.law = "synch" -> Ex(Map(a.g, LAMBDA g : RNeg(SynchLoss(b, g))), T7)
    [] o.law = "thomson" -> LET f == SscLossThomson(b, Ne(env, b), One) IN Ex(Map(a.g, LAMBDA g : RNeg(f \otimes Sq(g))), T7)
    [] o.law = "ssc" -> ExF(Map(SscLoss(b, Ne(env, b), a.g), RNeg), T6, Tiny)

\* ---------------------------------------------------------------- targets
\* the distance given by the recorded kind of limit, in Hz
ExpectTarget(env, t, what, a) ==
  LET b == IF Has(a, "blob") THEN env[a.blob] ELSE <<>>
      in == Has(a, "blob")
      rs(f(_)) == Map(a.r, f) IN
  CASE what = "u" ->
         LET e == Ex(rs(LAMBDA r : TargetU(t, r, b, in)), T6) IN
         IF in /\ t.kind = "SphericalShellBLR"
         THEN [finding |-> "blr-u-sign",
               alt |-> Map(a.r, LAMBDA r : IF r \prec t.R THEN BlrU(t, r, b, TRUE, FALSE) ELSE R("nan"))] @@ e
         ELSE e
    [] what = "eps" -> Ex(<<TargetEps(t)>>, T9)
    [] what = "line" -> Ex(<<R(LineTable[t.line][1]), R(LineTable[t.line][2]), R(LineTable[t.line][3])>>, T9)
    [] what = "disk" ->
         Ex(<<Mdot(t), Rg(t), lEdd(t), LEdd(t), M8(t), RinCm(t), RoutCm(t), RinT(t), RoutT(t)>>, T9)
    [] what = "disk_eps" -> Ex(Map(a.R, LAMBDA x : DiskEps(t, x)), T9)
    [] what = "disk_phi" -> Ex(Map(a.R, LAMBDA x : DiskPhi(t, x)), T9)
    [] what = "disk_T" -> Ex(Map(a.R, LAMBDA x : DiskT(t, x)), T9)
    [] what = "disk_mu" -> Ex(DiskMuGrid(t, a.rt, a.n), T9)
    [] what = "disk_eps_mu" -> Ex(Map(a.mu, LAMBDA m : DiskEps(t, DiskRofMu(m, a.rt))), T7)
    [] what = "disk_phi_mu" -> Ex(Map(a.mu, LAMBDA m : DiskPhi(t, DiskRofMu(m, a.rt))), T7)
    [] what = "radius" -> Ex(<<TorusR(t)>>, T9)
    [] what = "sed" ->
         IF t.kind = "SSDisk" THEN ExF(DiskSed(t, a.nu, a.z, a.dL, a.mus), T6, R("1e-100"))
         ELSE ExF(TorusSed(t, a.nu, a.z, a.dL), T6, R("1e-100"))
    [] what = "sed_raw" ->    \* before the normalisation to the luminosity
         IF t.kind = "SSDisk" THEN ExF(Map(a.nu, LAMBDA x : DiskBB(t, x, a.z, a.dL, a.mus)), T6, R("1e-100"))
         ELSE ExF(Map(a.nu, LAMBDA x : TorusBB(t, x, a.z, a.dL)), T6, R("1e-100"))

ExpectEC(env, o, what, a) ==
  LET b == env[o.blob] t == env[o.t] ne == Ne(env, b) IN
  CASE what = "sed_flux" ->
         ExFs(EcSed(b, ne, t, o.r, a.nu, o.rule, o.nmu, o.nphi, GammaExt(b)), T5,
              EcFloors(b, ne, t, o.r, a.nu, o.rule, o.nmu, o.nphi, GammaExt(b)))
    [] what = "sed_flux_static" ->
         LET g == LogGrid(a.g[1], a.g[2], a.g[3]) IN
         ExFs(EcSed(b, ne, t, o.r, a.nu, a.rule, a.nmu, a.nphi, g), T5,
              EcFloors(b, ne, t, o.r, a.nu, a.rule, a.nmu, a.nphi, g))

ExpectAbs(env, o, what, a) ==
  LET t == env[o.t] IN
  CASE what = "tau" ->
         IF t.kind = "Blob" THEN ExF(TauSynch(t, Ne(env, t), a.nu), T5, R("1e-100"))
         ELSE ExF(Tau(o, t, a.nu), T5, R("1e-100"))
    [] what = "absorption" -> Ex(Map(a.tau, LAMBDA x : RExp(RNeg(x))), T9)
    [] what = "absorption_homogeneous" ->
         Ex(Map(a.tau, LAMBDA x : IF REq(x, 0) THEN One ELSE RNeg(RExpm1(RNeg(x))) \oslash x), T9)

\* ---------------------------------------------------------------- fluxes from the SED
\* a.sed: the process's own SED at the frequencies a.nu, recorded next to the call
ToHz(q) == CASE q.kind = "Hz" -> ToReal(q.v) [] q.kind = "eV" -> q.v \oslash hEv [] q.kind = "cm" -> cc \oslash q.v
DiffFlux(sed, nu) == (sed \oslash eVerg) \oslash Sq(hEv \otimes nu)
ExpectFlux(b, what, a) ==
  LET n == Len(a.nu)
      onGrid == LET g == LogGrid(ToHz(a.lo), ToHz(a.hi), a.n) IN
                n = a.n /\ \A i \in 1..n : Close(g[i], a.nu[i], T9)
      m == MaxAbs(a.sed) IN
  CASE what = "sed_luminosity" -> ExF(Map(a.sed, LAMBDA s : FourPi \otimes Sq(b.dL) \otimes s), T9, Tiny)
    [] what = "diff_energy_flux" -> ExF(Tup([i \in 1..n |-> DiffFlux(a.sed[i], a.nu[i])]), T9, Tiny)
    [] what = "energy_flux_integral" ->
         IF ~onGrid THEN Assert(FALSE, "driver grid") ELSE
         ExF(<<TrapzLin(Tup([i \in 1..n |-> a.sed[i] \oslash a.nu[i]]), a.nu)>>, T9, Tiny)
    [] what = "flux_integral" ->
         IF ~onGrid THEN Assert(FALSE, "driver grid") ELSE
         ExF(<<TrapzLin(Tup([i \in 1..n |-> DiffFlux(a.sed[i], a.nu[i])]),
                       Tup([i \in 1..n |-> hEv \otimes a.nu[i]]))>>, T9, Tiny)
    [] what = "sed_peak_flux" -> Ex(<<m>>, T9)
    \* a frequency of the grid at which the maximum is reached
    [] what = "sed_peak_nu" ->
         LET at == {i \in 1..n : Close(a.sed[i], m, T9)} IN
         Ex(<<IF \E i \in at : Close(a.nu[i], a.got, T9) THEN a.got
              ELSE a.nu[CHOOSE i \in at : TRUE]>>, T9)
=============================================================================
