------------------------------- MODULE External -------------------------------
(* External Compton on every target: angle dependent kernel folded with the       *)
(* electrons, the angles and the target at the current distance.                  *)
EXTENDS Targets

CosPsi(mus, mu, phi) ==
  (mu \otimes mus) \oplus (RSqrt(RMax(1 \ominus Sq(mu), Zero)) \otimes RSqrt(1 \ominus Sq(mus)) \otimes RCos(phi))
GammaMin(eS, eps, cp) ==
  (eS \oslash 2) \otimes (1 \oplus RSqrt(1 \oplus (2 \oslash (eps \otimes eS \otimes (1 \ominus cp)))))
Kernel(g, eS, eps, cp) ==
  IF ~(g \succeq GammaMin(eS, eps, cp)) THEN Zero
  ELSE LET y == 1 \ominus (eS \oslash g)
           a == eS \oslash (g \otimes (g \otimes eps \otimes (1 \ominus cp)) \otimes y)
       IN  (y \oplus (1 \oslash y) \ominus (2 \otimes a)) \oplus Sq(a)

EpsObs(nu, z) == (1 \oplus z) \otimes ((hh \otimes nu) \oslash mec2)

\* number of electrons over gamma^2 on the external frame's grid
EcWeights(b, ne, g) ==
  LET n == DensArr(ne, Tup([k \in 1..Len(g) |-> g[k] \oslash b.delta_D])) IN
  Tup([k \in 1..Len(g) |-> (Vb(b) \otimes n[k]) \oslash Sq(g[k])])
GammaFold(w, g, rule, eS, eps, cp) ==
  Integ(rule, Tup([k \in 1..Len(g) |-> IF REq(w[k], 0) THEN Zero ELSE w[k] \otimes Kernel(g[k], eS, eps, cp)]), g)
\* over the angles: f(mu) weight, epsT(mu) target energy, cosM(mu) photon direction
AngleFold(w, g, rule, eS, mu, phi, mus, f(_), epsT(_), cosM(_)) ==
  LET im == Tup([p \in 1..Len(phi) |->
              TrapzLin(Tup([m \in 1..Len(mu) |->
                f(mu[m]) \otimes GammaFold(w, g, rule, eS, epsT(mu[m]), CosPsi(mus, cosM(mu[m]), phi[p]))]), mu)])
  IN  TrapzLin(im, phi)

MuGrid(n) == Linspace(R("-1.0"), One, n)
PhiGrid(n) == Linspace(Zero, 2 \otimes PI, n)

\* bound: the disk's surface brightness factor replaced by its upper bound 1
EcSedB(b, ne, t, r, nus, rule, nmu, nphi, g, bound) ==
  LET w == EcWeights(b, ne, g)
      mus == MuS(b)
      mu == MuGrid(nmu)
      phi == PhiGrid(nphi)
      D3 == Cube(b.delta_D)
      one(x) == One
      id(x) == x
      te(x) == TargetEps(t)
  IN  Tup([j \in 1..Len(nus) |->
    LET eS == EpsObs(nus[j], b.z)
        common == (Sq(eS) \otimes D3) \oslash Sq(b.dL)
    IN
    CASE t.kind = "CMB" ->
           ((3 \otimes cc \otimes sT \otimes CmbU0(t)) \oslash (128 \otimes Sq(PI) \otimes Sq(CmbEps(t))))
           \otimes common \otimes AngleFold(w, g, rule, eS, mu, phi, mus, one, te, id)
      [] t.kind = "PointSourceBehindJet" ->
           ((3 \otimes sT \otimes t.L) \oslash (128 \otimes Sq(PI) \otimes Sq(r) \otimes Sq(t.eps)))
           \otimes common \otimes GammaFold(w, g, rule, eS, t.eps, CosPsi(mus, One, Zero))
      [] t.kind = "SSDisk" ->
           LET rt == r \oslash Rg(t)
               mud == DiskMuGrid(t, rt, nmu)
               ep(m) == DiskEps(t, DiskRofMu(m, rt))
               fd(m) == (IF bound THEN One ELSE DiskPhi(t, DiskRofMu(m, rt)))
                        \oslash (Sq(ep(m)) \otimes m \otimes (((1 \oslash Sq(m)) \ominus 1) ^^ R("1.5")))
           IN ((9 \otimes sT \otimes GG \otimes t.M \otimes Mdot(t)) \oslash (512 \otimes Cube(PI) \otimes Cube(r)))
              \otimes common \otimes AngleFold(w, g, rule, eS, mud, phi, mus, fd, ep, id)
      [] t.kind = "SphericalShellBLR" ->
           LET fx(m) == 1 \oslash BlrX2(m, t.R, r)
               st(m) == BlrMuStar(m, t.R, r)
           IN ((3 \otimes sT \otimes t.xi \otimes t.L) \oslash (512 \otimes Cube(PI) \otimes Sq(TargetEps(t))))
              \otimes common \otimes AngleFold(w, g, rule, eS, mu, phi, mus, fx, te, st)
      [] t.kind = "RingDustTorus" ->
           LET x2 == Sq(TorusR(t)) \oplus Sq(r)
               m == r \oslash RSqrt(x2)
           IN ((3 \otimes sT \otimes t.xi \otimes t.L)
                 \oslash (256 \otimes Cube(PI) \otimes x2 \otimes Sq(TargetEps(t))))
              \otimes common
              \otimes TrapzLin(Tup([p \in 1..Len(phi) |->
                        GammaFold(w, g, rule, eS, TargetEps(t), CosPsi(mus, m, phi[p]))]), phi)])

EcSed(b, ne, t, r, nus, rule, nmu, nphi, g) == EcSedB(b, ne, t, r, nus, rule, nmu, nphi, g, FALSE)
\* rounding of the result: the brightness factor vanishes at the inner edge of the disk, where
\* it is the difference of two numbers known to (r/R_in)^2 units of rounding
EcFloors(b, ne, t, r, nus, rule, nmu, nphi, g) ==
  IF t.kind = "SSDisk"
  THEN LET s == EcSedB(b, ne, t, r, nus, rule, nmu, nphi, g, TRUE)
           c == R("1e-15") \otimes Sq(r \oslash RinCm(t))
       IN  Tup([j \in 1..Len(s) |-> RMax(R("1e-100"), c \otimes s[j])])
  ELSE Tup([j \in 1..Len(nus) |-> R("1e-100")])
=============================================================================
