------------------------------- MODULE Targets -------------------------------
(* Photon targets: energy densities, characteristic energies, thermal spectra.   *)
(* Target records (CGS):                                                          *)
(*   CMB  z            PointSourceBehindJet  L, eps                               *)
(*   SSDisk  M, L, eta, Rin, Rout  (or RinT, RoutT in gravitational radii)        *)
(*   SphericalShellBLR  L, xi, line, R       RingDustTorus  L, xi, T, R (or none) *)
EXTENDS Emission

HasF(rec, f) == f \in DOMAIN rec

\* ---------------------------------------------------------------- emission lines
\* wavelength (Angstrom), radius and luminosity relative to H-beta
LineTable == [
  Lyepsilon |-> <<"937.80", "2.7", "0.24">>,   Lydelta |-> <<"949.74", "2.8", "0.24">>,
  CIII |-> <<"977.02", "0.83", "0.60">>,       NIII |-> <<"990.69", "0.85", "0.60">>,
  Lybeta |-> <<"1025.72", "1.2", "1.1">>,      OVI |-> <<"1033.83", "1.2", "1.1">>,
  ArI |-> <<"1066.66", "4.5", "0.094">>,       Lyalpha |-> <<"1215.67", "0.27", "12">>,
  OI |-> <<"1304.35", "4.0", "0.23">>,         SiII |-> <<"1306.82", "4.0", "0.23">>,
  SiIV |-> <<"1396.76", "0.83", "1.0">>,       CIV |-> <<"1549.06", "0.83", "2.9">>,
  NIV |-> <<"1718.55", "3.8", "0.30">>,        AlII |-> <<"1721.89", "3.8", "0.30">>,
  MgII |-> <<"2798.75", "0.45", "1.7">>,       Hdelta |-> <<"4102.89", "3.4", "0.12">>,
  Hgamma |-> <<"4341.68", "3.2", "0.30">>,     HeII |-> <<"4687.02", "0.63", "0.016">>,
  Hbeta |-> <<"4862.68", "1.0", "1.0">>,       HeI |-> <<"5877.29", "0.39", "0.092">>,
  Halpha |-> <<"6564.61", "1.3", "3.6">> ]
  @@ ("OIV]" :> <<"1402.06", "0.83", "1.0">>) @@ ("CIII]" :> <<"1908.73", "0.46", "1.8">>)
  @@ ("[NeIV]" :> <<"2423.83", "5.8", "0.051">>) @@ ("[ClIII]" :> <<"5539.43", "4.8", "0.039">>)
LineEps(line) == (hh \otimes cc) \oslash ((R(LineTable[line][1]) \otimes R("1e-8")) \otimes mec2)

\* ---------------------------------------------------------------- CMB
Tcmb == R("2.72548")
CmbU0(t) == R("7.5657e-15") \otimes (Tcmb ^^ 4) \otimes ((1 \oplus t.z) ^^ 4)
CmbEps(t) == (R("2.7") \otimes kB \otimes Tcmb \otimes (1 \oplus t.z)) \oslash mec2
CmbU(t, b, inblob) ==
  IF inblob THEN CmbU0(t) \otimes Sq(b.Gamma) \otimes (1 \oplus (Sq(BetaOf(b.Gamma)) \oslash 3)) ELSE CmbU0(t)

\* ---------------------------------------------------------------- point source
PsU(t, r, b, inblob) ==
  LET u0 == t.L \oslash (FourPi \otimes cc \otimes Sq(r)) IN
  IF inblob THEN u0 \oslash (Sq(b.Gamma) \otimes Sq(1 \oplus BetaOf(b.Gamma))) ELSE u0

\* ---------------------------------------------------------------- disk
M8(t) == t.M \oslash (R("1e8") \otimes Msun)
LEdd(t) == R("1.26e46") \otimes M8(t)
lEdd(t) == t.L \oslash LEdd(t)
Mdot(t) == t.L \oslash (t.eta \otimes Sq(cc))
Rg(t) == (GG \otimes t.M) \oslash Sq(cc)
RinT(t) == IF HasF(t, "RinT") THEN t.RinT ELSE t.Rin \oslash Rg(t)
RoutT(t) == IF HasF(t, "RoutT") THEN t.RoutT ELSE t.Rout \oslash Rg(t)
RinCm(t) == IF HasF(t, "Rin") THEN t.Rin ELSE t.RinT \otimes Rg(t)
RoutCm(t) == IF HasF(t, "Rout") THEN t.Rout ELSE t.RoutT \otimes Rg(t)
DiskMuGrid(t, rt, n) ==
  Linspace(1 \oslash RSqrt(1 \oplus Sq(RoutT(t) \oslash rt)), 1 \oslash RSqrt(1 \oplus Sq(RinT(t) \oslash rt)), n)
DiskRofMu(mu, rt) == rt \otimes RSqrt((1 \oslash Sq(mu)) \ominus 1)
DiskPhi(t, rT) == 1 \ominus RSqrt(RinT(t) \oslash rT)
DiskEps(t, rT) ==
  R("2.7e-4") \otimes ((lEdd(t) \oslash (M8(t) \otimes t.eta)) ^^ R("0.25")) \otimes (rT ^^ R("-0.75"))
DiskT(t, rad) ==
  LET phi == 1 \ominus RSqrt(RinCm(t) \oslash rad) IN
  ((3 \otimes GG \otimes t.M \otimes Mdot(t) \otimes phi) \oslash (8 \otimes PI \otimes Cube(rad) \otimes sSB)) ^^ R("0.25")
DiskU(t, r, b, inblob) ==
  LET rt == r \oslash Rg(t)
      mu == DiskMuGrid(t, rt, 100)
      bt == BetaOf(b.Gamma)
      y == Tup([i \in 1..100 |->
             LET base == ((((1 \oslash Sq(mu[i])) \ominus 1) ^^ R("-1.5")) \otimes DiskPhi(t, DiskRofMu(mu[i], rt))) \oslash mu[i]
                 mp1 == (mu[i] \ominus bt) \oslash (1 \ominus (bt \otimes mu[i]))
             IN  IF inblob
                 THEN base \oslash ((b.Gamma ^^ 6) \otimes Sq(1 \ominus (bt \otimes mu[i])) \otimes ((1 \oplus (bt \otimes mp1)) ^^ 4))
                 ELSE base])
  IN  ((3 \otimes lEdd(t) \otimes LEdd(t) \otimes Rg(t)) \oslash (8 \otimes PI \otimes cc \otimes t.eta \otimes Cube(r)))
      \otimes TrapzLin(y, mu)

Planck(nu, T) ==          \* erg / (s cm2 Hz sr)
  IF ~(T \succ 0) THEN Zero
  ELSE ((2 \otimes hh \otimes Cube(nu)) \oslash Sq(cc)) \oslash RExpm1((hh \otimes nu) \oslash (kB \otimes T))
DiskBB(t, nu, z, dL, mus) ==
  LET rr == Linspace(RinCm(t), RoutCm(t), 100)
      nup == nu \otimes (1 \oplus z)
  IN  mus \otimes nu \otimes ((2 \otimes PI) \oslash Sq(dL))
      \otimes TrapzLin(Tup([i \in 1..100 |-> rr[i] \otimes Planck(nup, DiskT(t, rr[i]))]), rr)
DiskNuGrid == Logspace(R("3.0"), R("21.0"), 100)
DiskNorm(t, z, dL, mus) ==
  LET f == Tup([j \in 1..100 |-> DiskBB(t, DiskNuGrid[j], z, dL, mus) \oslash DiskNuGrid[j]])
  IN  t.L \oslash (2 \otimes FourPi \otimes Sq(dL) \otimes TrapzLin(f, DiskNuGrid))
DiskSed(t, nus, z, dL, mus) ==
  LET nm == DiskNorm(t, z, dL, mus) IN Tup([j \in 1..Len(nus) |-> nm \otimes DiskBB(t, nus[j], z, dL, mus)])

\* ---------------------------------------------------------------- line region
BlrX2(mu, Rl, r) == (Sq(Rl) \oplus Sq(r)) \ominus (2 \otimes r \otimes Rl \otimes mu)
\* cosine at the emission region of a photon from the shell element at mu
BlrMuStar(mu, Rl, r) ==
  LET s == 1 \ominus ((Sq(Rl) \oslash BlrX2(mu, Rl, r)) \otimes (1 \ominus Sq(mu)))
      v == RSqrt(RMax(s, Zero))
  IN  IF r \succ (mu \otimes Rl) THEN v ELSE RNeg(v)
BlrU(t, r, b, inblob, signed) ==
  LET mu == Linspace(R("-1.0"), One, 50)
      bt == BetaOf(b.Gamma)
      y == Tup([i \in 1..50 |->
             LET m0 == BlrMuStar(mu[i], t.R, r)
                 ms == IF signed THEN m0 ELSE RAbs(m0)
                 base == 1 \oslash BlrX2(mu[i], t.R, r)
             IN  IF inblob THEN base \otimes Sq(b.Gamma) \otimes Sq(1 \ominus (bt \otimes ms)) ELSE base])
  IN  ((t.xi \otimes t.L) \oslash (8 \otimes PI \otimes cc)) \otimes TrapzLin(y, mu)

\* ---------------------------------------------------------------- torus
TorusR(t) ==
  IF HasF(t, "R") THEN t.R
  ELSE R("3.5e18") \otimes RSqrt(t.L \oslash R("1e45")) \otimes ((t.T \oslash 1000) ^^ R("-2.6"))
TorusEps(t) == (R("2.7") \otimes kB \otimes t.T) \oslash mec2
TorusU(t, r, b, inblob) ==
  LET x2 == Sq(TorusR(t)) \oplus Sq(r)
      base == (t.xi \otimes t.L) \oslash (FourPi \otimes cc \otimes x2)
      mu == r \oslash RSqrt(x2)
  IN  IF inblob THEN base \otimes Sq(b.Gamma \otimes (1 \ominus (BetaOf(b.Gamma) \otimes mu))) ELSE base
TorusBB(t, nu, z, dL) ==
  PI \otimes Sq(TorusR(t) \oslash dL) \otimes nu \otimes Planck(nu \otimes (1 \oplus z), t.T)
TorusSed(t, nus, z, dL) ==
  LET Ltot == FourPi \otimes Sq(TorusR(t)) \otimes sSB \otimes (t.T ^^ 4)
  IN  Tup([j \in 1..Len(nus) |-> ((t.xi \otimes t.L) \oslash Ltot) \otimes TorusBB(t, nus[j], z, dL)])

TargetU(t, r, b, inblob) ==
  CASE t.kind = "CMB" -> CmbU(t, b, inblob)
    [] t.kind = "PointSourceBehindJet" -> PsU(t, r, b, inblob)
    [] t.kind = "SSDisk" -> DiskU(t, r, b, inblob)
    [] t.kind = "SphericalShellBLR" -> BlrU(t, r, b, inblob, TRUE)
    [] t.kind = "RingDustTorus" -> TorusU(t, r, b, inblob)
TargetEps(t) ==
  CASE t.kind = "CMB" -> CmbEps(t)
    [] t.kind = "PointSourceBehindJet" -> t.eps
    [] t.kind = "SphericalShellBLR" -> LineEps(t.line)
    [] t.kind = "RingDustTorus" -> TorusEps(t)
=============================================================================
