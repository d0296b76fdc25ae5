-------------------------------- MODULE Opacity --------------------------------
(* Photon-photon opacities on the targets and on a region's own synchrotron.      *)
EXTENDS External

Sigma(s) ==
  IF ~(s \succeq 1) THEN Zero
  ELSE LET be == RSqrt(1 \ominus (1 \oslash s))
           b2 == Sq(be)
       IN  ((R("0.1875") \otimes sT) \otimes (1 \ominus b2))
           \otimes (((3 \ominus Sq(b2)) \otimes RLn(Clip((1 \oplus be) \oslash (1 \ominus be))))
                    \ominus (2 \otimes be \otimes (2 \ominus b2)))
mec3 == me \otimes Cube(cc)

\* integrand (1 - cos psi) sigma(s) for a photon of energy eps met under cp
Pair(e1, eps, cp) == (1 \ominus cp) \otimes Sigma((e1 \otimes eps \otimes (1 \ominus cp)) \oslash 2)

MinRel == R("1e-4")
\* points too close to the shell are pushed outwards
Nudge(x, at, Rl) ==
  IF RAbs(at \ominus Rl) \preceq (MinRel \otimes Rl) THEN x \oplus (MinRel \otimes Rl) ELSE x
RECURSIVE Insert(_, _)
Insert(x, s) == IF s = <<>> THEN <<x>> ELSE IF x \preceq Head(s) THEN <<x>> \o s ELSE <<Head(s)>> \o Insert(x, Tail(s))
RECURSIVE SortR(_)
SortR(s) == IF s = <<>> THEN <<>> ELSE Insert(Head(s), SortR(Tail(s)))

\* path of a gamma ray along the axis / leaving the axis
AxisPath(r, n) == LET e == Logspace(Zero, R("5.0"), n) IN Tup([i \in 1..n |-> e[i] \otimes r])
ObliquePath(r, n) == LET e == Logspace(R("-5.0"), R("5.0"), n) IN Tup([i \in 1..n |-> e[i] \otimes r])

SinOf(m) == RSqrt(1 \ominus Sq(m))
\* cosine between the gamma ray (in the x-z plane, cosine mus) and the vector (dx, dy, dz)
CosVec(mus, dx, dy, dz) ==
  ((dz \otimes mus) \oplus (dx \otimes SinOf(mus)))
    \oslash RSqrt(Sq(dx) \oplus Sq(dy) \oplus Sq(dz))

TauPs(t, r, e1, mus) ==
  IF REq(mus, 1) THEN Zero
  ELSE LET uu == ObliquePath(r, 100) IN
    (t.L \oslash (FourPi \otimes t.eps \otimes mec3))
    \otimes TrapzLin(Tup([i \in 1..100 |->
         LET dx == uu[i] \otimes SinOf(mus) dz == r \oplus (uu[i] \otimes mus)
             x2 == Sq(dx) \oplus Sq(dz)
         IN  Pair(e1, t.eps, CosVec(mus, dx, Zero, dz)) \oslash x2]), uu)

TauDisk(t, r, e1, mus, nphi, nl) ==
  LET rt == r \oslash Rg(t)
      RT == Linspace(RinT(t), RoutT(t), 100)
      ep == Tup([i \in 1..100 |-> DiskEps(t, RT[i])])
      ll == AxisPath(rt, nl)
      phi == PhiGrid(nphi)
      val(i, p, l) ==
        LET q == 1 \oplus (Sq(RT[i]) \oslash Sq(ll[l]))
            cp == CosPsi(mus, 1 \oslash RSqrt(q), phi[p])
        IN  (DiskPhi(t, RT[i]) \otimes Pair(e1, ep[i], cp))
            \oslash (Sq(ll[l]) \otimes Sq(RT[i]) \otimes (q ^^ R("1.5")) \otimes ep[i])
  IN  ((3 \otimes t.L) \oslash (Sq(FourPi) \otimes t.eta \otimes mec3 \otimes Rg(t)))
      \otimes TrapzLin(Tup([l \in 1..nl |->
        TrapzLin(Tup([p \in 1..nphi |-> TrapzLin(Tup([i \in 1..100 |-> val(i, p, l)]), RT)]), phi)]), ll)

TauBlrAxis(t, r, e1, mus, nmu, nphi, nl) ==
  LET l0 == AxisPath(r, nl)
      ll == Tup([i \in 1..nl |-> Nudge(l0[i], l0[i], t.R)])
      mu == MuGrid(nmu)
      phi == PhiGrid(nphi)
      ep == TargetEps(t)
  IN  ((t.L \otimes t.xi) \oslash (Sq(FourPi) \otimes ep \otimes mec3))
      \otimes TrapzLin(Tup([l \in 1..nl |->
        TrapzLin(Tup([p \in 1..nphi |->
          TrapzLin(Tup([m \in 1..nmu |->
            Pair(e1, ep, CosPsi(mus, BlrMuStar(mu[m], t.R, ll[l]), phi[p]))
              \oslash BlrX2(mu[m], t.R, ll[l])]), mu)]), phi)]), ll)
TauBlrOblique(t, r, e1, mus, nmu, nphi, nl) ==
  LET u0 == ObliquePath(r, 2 * nl)
      at(u) == RSqrt((Sq(r) \oplus Sq(u)) \oplus (2 \otimes u \otimes r \otimes mus))
      uu == Tup(SortR(Tup([i \in 1..(2 * nl) |-> Nudge(u0[i], at(u0[i]), t.R)])))
      mu == MuGrid(nmu)
      phi == PhiGrid(nphi)
      ep == TargetEps(t)
      val(m, p, i) ==
        LET s == SinOf(mu[m])
            dx == (uu[i] \otimes SinOf(mus)) \ominus (t.R \otimes s \otimes RCos(phi[p]))
            dy == RNeg(t.R \otimes s \otimes RSin(phi[p]))
            dz == (r \oplus (uu[i] \otimes mus)) \ominus (t.R \otimes mu[m])
        IN  Pair(e1, ep, CosVec(mus, dx, dy, dz)) \oslash (Sq(dx) \oplus Sq(dy) \oplus Sq(dz))
  IN  ((t.L \otimes t.xi) \oslash (Sq(FourPi) \otimes ep \otimes mec3))
      \otimes TrapzLin(Tup([i \in 1..(2 * nl) |->
        TrapzLin(Tup([p \in 1..nphi |->
          TrapzLin(Tup([m \in 1..nmu |-> val(m, p, i)]), mu)]), phi)]), uu)

TauDtAxis(t, r, e1, mus, nphi, nl) ==
  LET ll == AxisPath(r, nl)
      phi == PhiGrid(nphi)
      ep == TargetEps(t)
      Rt == TorusR(t)
  IN  ((t.L \otimes t.xi) \oslash (8 \otimes Sq(PI) \otimes ep \otimes mec3))
      \otimes TrapzLin(Tup([l \in 1..nl |->
        LET x2 == Sq(Rt) \oplus Sq(ll[l]) IN
        TrapzLin(Tup([p \in 1..nphi |->
          Pair(e1, ep, CosPsi(mus, ll[l] \oslash RSqrt(x2), phi[p])) \oslash x2]), phi)]), ll)
TauDtOblique(t, r, e1, mus, nphi, nl) ==
  LET uu == ObliquePath(r, 2 * nl)
      phi == PhiGrid(nphi)
      ep == TargetEps(t)
      Rt == TorusR(t)
      val(p, i) ==
        LET dx == (uu[i] \otimes SinOf(mus)) \ominus (Rt \otimes RCos(phi[p]))
            dy == RNeg(Rt \otimes RSin(phi[p]))
            dz == r \oplus (uu[i] \otimes mus)
        IN  Pair(e1, ep, CosVec(mus, dx, dy, dz)) \oslash (Sq(dx) \oplus Sq(dy) \oplus Sq(dz))
  IN  ((t.L \otimes t.xi) \oslash (8 \otimes Sq(PI) \otimes ep \otimes mec3))
      \otimes TrapzLin(Tup([i \in 1..(2 * nl) |->
        TrapzLin(Tup([p \in 1..nphi |-> val(p, i)]), phi)]), uu)

\* on the synchrotron photons of a region
TauSynch(b, ne, nus) ==
  LET lo == NuPeak(b.B, ne.gamma_min, "e") \otimes R("0.01")
      hi == NuPeak(b.B, ne.gamma_max, "e") \otimes 100
      nuo == LET g == LogGrid(lo, hi, 200)
             IN  Tup([i \in 1..200 |-> (g[i] \otimes b.delta_D) \oslash (1 \oplus b.z)])
      ep == Tup([i \in 1..200 |-> EpsPrime(nuo[i], b.z, b.delta_D, "e")])
      sy == SynchSed(b, ne, nuo, TRUE, "trapz", GammaE(b, ne))
      n == Tup([i \in 1..200 |-> UphDiff(b, ep[i], sy[i]) \oslash (ep[i] \otimes mec2)])
  IN  Tup([j \in 1..Len(nus) |->
        LET e1 == EpsPrime(nus[j], b.z, b.delta_D, "e") IN
        2 \otimes b.R_b \otimes
        TrapzLin(Tup([i \in 1..200 |-> n[i] \otimes Sigma((ep[i] \otimes e1) \oslash 2)]), ep)])

Tau(a, t, nus) ==     \* a: absorber record, t: target record
  Tup([j \in 1..Len(nus) |->
    LET e1 == EpsObs(nus[j], a.z) axis == REq(a.mu_s, 1) IN
    CASE t.kind = "PointSourceBehindJet" -> TauPs(t, a.r, e1, a.mu_s)
      [] t.kind = "SSDisk" -> TauDisk(t, a.r, e1, a.mu_s, a.nphi, a.nl)
      [] t.kind = "SphericalShellBLR" ->
           IF axis THEN TauBlrAxis(t, a.r, e1, a.mu_s, a.nmu, a.nphi, a.nl)
           ELSE TauBlrOblique(t, a.r, e1, a.mu_s, a.nmu, a.nphi, a.nl)
      [] t.kind = "RingDustTorus" ->
           IF axis THEN TauDtAxis(t, a.r, e1, a.mu_s, a.nphi, a.nl)
           ELSE TauDtOblique(t, a.r, e1, a.mu_s, a.nphi, a.nl)])
=============================================================================
