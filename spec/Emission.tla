------------------------------- MODULE Emission -------------------------------
(* Emission regions and the processes that only need the region itself:         *)
(* derived quantities, synchrotron (electrons, protons), self-absorption,        *)
(* synchrotron self-Compton, energy losses, spectral constraints.                *)
(* A region is a record b; ne / np are its distribution records.                 *)
EXTENDS Dist

me   == R("9.1093837139e-28")
mp   == R("1.67262192595e-24")
cc   == R("29979245800.0")
hh   == R("6.62607015e-27")
kB   == R("1.380649e-16")
GG   == R("6.674299999999999e-08")
sT   == R("6.6524587051e-25")
Msun == R("1.988409870698051e+33")
sSB  == R("5.6703744191844314e-05")
qe   == R("4.803204712570263e-10")
mec2 == R("8.187105787968449e-07")
mpc2 == R("0.0015032776180163123")
eVerg == R("1.6021766339999997e-12")
hEv  == R("4.135667696923859e-15")      \* h in eV s
day  == R("86400.0")
Bcr  == R("4.414e13")
mass(p) == IF p = "p" THEN mp ELSE me
mc2(p)  == IF p = "p" THEN mpc2 ELSE mec2
lambdaC(p) == hh \oslash (mass(p) \otimes cc)
FourPi == 4 \otimes PI

\* ------------------------------------------------------------ region geometry
Vb(b) == ((4 \otimes PI) \oslash 3) \otimes Cube(b.R_b)
TvarDays(b) == (((1 \oplus b.z) \otimes b.R_b) \oslash (cc \otimes b.delta_D)) \oslash day
BetaOf(G) == RSqrt(1 \ominus (1 \oslash Sq(G)))
MuS(b) == (1 \ominus (1 \oslash (b.Gamma \otimes b.delta_D))) \oslash BetaOf(b.Gamma)
ThetaDeg(b) == (RAcos(MuS(b)) \otimes 180) \oslash PI
DopplerFrom(G, thetaRad) == 1 \oslash (G \otimes (1 \ominus (BetaOf(G) \otimes RCos(thetaRad))))
UB(b) == Sq(b.B) \oslash (8 \otimes PI)

GammaE(b, ne) == LogGrid(ne.gamma_min, ne.gamma_max, b.ge)
GammaP(b, np) == LogGrid(np.gamma_min, np.gamma_max, b.gp)
GammaExt(b)   == Logspace(One, R("9.0"), b.ge)

\* moments of a distribution on a grid, trapezoidal
Moment(d, g, pow) ==
  LET n == DensArr(d, g) IN
  TrapzLin(Tup([i \in 1..Len(g) |-> (g[i] ^^ pow) \otimes n[i]]), g)
NeTot(b, ne) == Moment(ne, GammaE(b, ne), 0)
Ue(b, ne) == mec2 \otimes Moment(ne, GammaE(b, ne), 1)
NpTot(b, np) == Moment(np, GammaP(b, np), 0)
Up(b, np) == mpc2 \otimes Moment(np, GammaP(b, np), 1)
\* np is the record NoDist when the region has no protons
NoDist == [kind |-> "none"]
UpOr0(b, np) == IF np.kind = "none" THEN Zero ELSE Up(b, np)
Keq(b, ne, np) == (Ue(b, ne) \oplus UpOr0(b, np)) \oslash UB(b)
JetPre(b) == 2 \otimes PI \otimes Sq(b.R_b) \otimes BetaOf(b.Gamma) \otimes Sq(b.Gamma) \otimes cc
PjetKe(b, ne, np) == JetPre(b) \otimes (Ue(b, ne) \oplus UpOr0(b, np))
PjetB(b) == JetPre(b) \otimes UB(b)
UphSynch(b, ne) == sT \otimes UB(b) \otimes b.R_b \otimes Moment(ne, GammaE(b, ne), 2)
\* differential synchrotron energy density from the SED in the observer frame
UphDiff(b, eps, sed) ==
  (R("0.75") \otimes 3 \otimes Sq(b.dL) \otimes sed)
    \oslash (cc \otimes Sq(b.R_b) \otimes (b.delta_D ^^ 4) \otimes eps)

\* ------------------------------------------------------------ synchrotron
EpsPrime(nu, z, dD, part) == ((1 \oplus z) \otimes ((hh \otimes nu) \oslash mc2(part))) \oslash dD

RSynch(x) ==
  LET x13 == x ^^ R("0.3333333333333333")
      x23 == x ^^ R("0.6666666666666666")
      x43 == x ^^ R("1.3333333333333333")
  IN  ((R("1.808") \otimes x13) \oslash RSqrt(1 \oplus (R("3.4") \otimes x23)))
      \otimes ((1 \oplus (R("2.21") \otimes x23) \oplus (R("0.347") \otimes x43))
               \oslash (1 \oplus (R("1.353") \otimes x23) \oplus (R("0.217") \otimes x43)))
      \otimes RExp(RNeg(x))
XSynch(B, eps, g, part) ==
  (4 \otimes PI \otimes eps \otimes Sq(mass(part)) \otimes Cube(cc))
    \oslash (3 \otimes qe \otimes B \otimes hh \otimes Sq(g))
PSynch(B, eps, g, part) ==
  ((RSqrt(R("3.0")) \otimes Cube(qe) \otimes B) \oslash hh) \otimes RSynch(XSynch(B, eps, g, part))

\* SED of particles with densities n on the grid g
SynchSedOn(b, nu, n, g, rule, part) ==
  LET eps == EpsPrime(nu, b.z, b.delta_D, part)
      xg == (4 \otimes PI \otimes eps \otimes Sq(mass(part)) \otimes Cube(cc))
              \oslash (3 \otimes qe \otimes b.B \otimes hh)
      pre == (RSqrt(R("3.0")) \otimes Cube(qe) \otimes b.B \otimes Vb(b)) \oslash hh
      y == Tup([i \in 1..Len(g) |->
               IF REq(n[i], 0) THEN Zero ELSE LiftTo(rule, n[i] \otimes pre \otimes RSynch(xg \oslash Sq(g[i])))])
  IN  ((b.delta_D ^^ 4) \oslash (FourPi \otimes Sq(b.dL))) \otimes eps \otimes Integ(rule, y, g)

TauSSA(b, d, nu, g, rule) ==
  LET eps == EpsPrime(nu, b.z, b.delta_D, "e")
      s == SSAArr(d, g)
      y == Tup([i \in 1..Len(g) |->
               IF REq(s[i], 0) THEN Zero ELSE LiftTo(rule, s[i] \otimes PSynch(b.B, eps, g[i], "e"))])
      k == RNeg((Cube(lambdaC("e") \oslash cc) \oslash (8 \otimes PI \otimes me \otimes Sq(eps)))
             \otimes Integ(rule, y, g))
  IN  2 \otimes k \otimes b.R_b
\* attenuation of a sphere of opacity t
Attenuation(t) ==
  IF t \prec R("1e-3") THEN One
  ELSE LET w == Half \oplus (RExp(RNeg(t)) \oslash t)
                \ominus ((1 \ominus RExp(RNeg(t))) \oslash Sq(t))
       IN  (3 \otimes w) \oslash t

SynchSed(b, ne, nus, ssa, rule, g) ==
  LET n == DensArr(ne, g) IN
  Tup([j \in 1..Len(nus) |->
    LET s == SynchSedOn(b, nus[j], n, g, rule, "e") IN
    IF ssa THEN s \otimes Attenuation(TauSSA(b, ne, nus[j], g, rule)) ELSE s])
ProtonSynchSed(b, np, nus, rule, g) ==
  LET n == DensArr(np, g) IN
  Tup([j \in 1..Len(nus) |-> SynchSedOn(b, nus[j], n, g, rule, "p")])
SynchDelta(b, ne, nus) ==
  LET gs == Tup([j \in 1..Len(nus) |->
              RSqrt(EpsPrime(nus[j], b.z, b.delta_D, "e") \oslash (b.B \oslash Bcr))])
      n == DensArr(ne, gs)
      pre == ((b.delta_D ^^ 4) \otimes cc \otimes sT \otimes UB(b)) \oslash (6 \otimes PI \otimes Sq(b.dL))
  IN  Tup([j \in 1..Len(nus) |-> pre \otimes Cube(gs[j]) \otimes Vb(b) \otimes n[j]])
NuPeak(B, g, part) == ((qe \otimes B) \oslash (2 \otimes PI \otimes mass(part) \otimes cc)) \otimes Sq(g)
SynchLoss(b, g) == (R("1.3333333333333333") \otimes sT \otimes cc \otimes UB(b)) \otimes Sq(g)

\* ------------------------------------------------------------ self-Compton
NuInt == Logspace(R("5.0"), R("30.0"), 200)       \* frequencies of the target photons (Hz)
GamInt == Logspace(One, R("9.0"), 200)            \* default Lorentz factor grid

IsoKernel(g, eps, epsS) ==
  LET Ge == 4 \otimes g \otimes eps
      q == (epsS \oslash g) \oslash (Ge \otimes (1 \ominus (epsS \oslash g)))
  IN  IF (1 \oslash (4 \otimes Sq(g))) \preceq q /\ q \preceq 1
      THEN (2 \otimes q \otimes RLn(q))
           \oplus ((1 \oplus (2 \otimes q)) \otimes (1 \ominus q))
           \oplus ((Half \otimes Sq(Ge \otimes q) \otimes (1 \ominus q)) \oslash (1 \oplus (Ge \otimes q)))
      ELSE Zero

SscSed(b, ne, nus, ssa, rule, g) ==
  LET eps == Tup([i \in 1..Len(NuInt) |-> EpsPrime(NuInt[i], b.z, b.delta_D, "e")])
      sy  == SynchSed(b, ne, NuInt, ssa, rule, g)
      uph == Tup([i \in 1..Len(eps) |-> UphDiff(b, eps[i], sy[i]) \oslash Sq(eps[i])])
      n   == DensArr(ne, g)
      w   == Tup([k \in 1..Len(g) |-> (Vb(b) \otimes n[k]) \oslash Sq(g[k])])
  IN  Tup([j \in 1..Len(nus) |->
        LET eS == EpsPrime(nus[j], b.z, b.delta_D, "e")
            \* the rule is scale free, so the photon density can be taken out of the first integral
            ig == Tup([i \in 1..Len(eps) |->
                    IF REq(uph[i], 0) THEN Zero ELSE
                    Integ(rule, Tup([k \in 1..Len(g) |->
                       IF REq(w[k], 0) THEN Zero
                       ELSE uph[i] \otimes w[k] \otimes IsoKernel(g[k], eps[i], eS)]), g)])
        IN  ((b.delta_D ^^ 4) \oslash (FourPi \otimes Sq(b.dL)))
            \otimes (R("0.75") \otimes cc \otimes sT) \otimes Sq(eS) \otimes Integ(rule, ig, eps)])

FKN(x) ==
  IF x \prec R("1e4") THEN 1 \oslash ((1 \oplus x) ^^ R("1.5"))
  ELSE (R("4.5") \oslash Sq(x)) \otimes (RLn(x) \ominus R("1.8333333333333333"))
SscLoss(b, ne, gs) ==
  LET eps == Tup([i \in 1..Len(NuInt) |-> EpsPrime(NuInt[i], b.z, b.delta_D, "e")])
      sy  == SynchSed(b, ne, NuInt, FALSE, "trapz", GamInt)
      uph == Tup([i \in 1..Len(eps) |-> UphDiff(b, eps[i], sy[i])])
  IN  Tup([j \in 1..Len(gs) |->
        (R("1.3333333333333333") \otimes sT \otimes cc)
        \otimes TrapzLin(Tup([i \in 1..Len(eps) |->
                   FKN(4 \otimes gs[j] \otimes eps[i]) \otimes uph[i]]), eps)
        \otimes Sq(gs[j])])
SscLossThomson(b, ne, g) ==
  (R("1.3333333333333333") \otimes sT \otimes cc \otimes UphSynch(b, ne)) \otimes Sq(g)

\* ------------------------------------------------------------ spectral constraints
GmaxLarmor(b) == (b.R_b \otimes qe \otimes b.B) \oslash mec2
GmaxBallistic(b) == b.xi \otimes GmaxLarmor(b)
GmaxSynch(b) == RSqrt((6 \otimes PI \otimes b.xi \otimes qe) \oslash (sT \otimes b.B))
GmaxThomson(b, u) == RSqrt((3 \otimes b.xi \otimes qe \otimes b.B) \oslash (4 \otimes sT \otimes u))
GbreakSynch(b) == (6 \otimes PI \otimes mec2) \oslash (sT \otimes Sq(b.B) \otimes b.R_b)
GbreakThomson(b, u) == (3 \otimes mec2) \oslash (4 \otimes sT \otimes u \otimes b.R_b)
=============================================================================
