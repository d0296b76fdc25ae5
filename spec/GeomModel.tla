------------------------------ MODULE GeomModel ------------------------------
(* Design model of the module-level helpers: the documented closed formulas        *)
(* (law of cosines, direction cosines, exact quadrature of power laws) hold at      *)
(* every point of a grid of geometries and power laws, against plain Cartesian      *)
(* vectors and the analytical integral.  Defect selects wrong formulas.             *)
EXTENDS Lib

CONSTANT Defect
VARIABLES g, p
vars == <<g, p>>

Lens == <<R("0"), R("0.3"), R("1"), R("7.5"), R("120")>>
Mus == <<R("-1"), R("-0.6"), R("0"), R("0.28"), R("0.999"), R("1")>>
Phis == <<R("0"), R("0.7"), R("1.5707963267948966"), R("3.3"), R("5.9")>>
Idx == <<R("-3"), R("-1"), R("-0.5"), R("0"), R("2.2")>>

\* a geometry: <<r, R, u, mu_s, mu, phi>> (indices), a power law: <<index, first, ratio>>
Init == /\ g \in (2..5) \X (2..5) \X (1..5) \X (1..6) \X (1..6) \X (1..5)
        /\ p = <<1 + ((g[1] + g[3] + g[5]) % 5), 2 + (g[2] % 4), 1 + (g[6] % 3)>>
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

r == Lens[g[1]]   Rr == Lens[g[2]]   uu == Lens[g[3]]
ms == Mus[g[4]]   mu == Mus[g[5]]    ph == Phis[g[6]]
d(name) == Defect = name

\* ---- the documented formulas
XShell == RSqrt((Sq(Rr) \oplus Sq(r)) \ominus (2 \otimes r \otimes Rr \otimes mu))
XRing == RSqrt(Sq(Rr) \oplus Sq(r))
XRingMu ==
  RSqrt(Sq(uu) \oplus Sq(Rr) \oplus Sq(r) \oplus (2 \otimes r \otimes uu \otimes ms)
        \oplus RNeg(2 \otimes uu \otimes Rr \otimes SinOf(ms) \otimes (IF d("ringSin") THEN RSin(ph) ELSE RCos(ph))))
XShellMu ==
  RSqrt(Sq(uu) \oplus Sq(Rr) \oplus Sq(r) \oplus (2 \otimes r \otimes uu \otimes ms)
        \oplus RNeg(2 \otimes Rr \otimes uu \otimes SinOf(mu) \otimes RCos(ph) \otimes SinOf(ms))
        \oplus RNeg(2 \otimes Rr \otimes mu \otimes (IF d("shellHeight") THEN r ELSE r \oplus (uu \otimes ms))))
CosPsiDoc == (mu \otimes ms) \oplus (SinOf(mu) \otimes SinOf(ms) \otimes (IF d("cosPhi") THEN One ELSE RCos(ph)))
\* on-axis direction cosine by the law of sines; the sign tells which side
MuStarSq == One \ominus (Sq(Rr \oslash XShell) \otimes (One \ominus Sq(mu)))

Near(a, b, sc) == CloseAbs(a, b, R("1e-9"), R("1e-12") \otimes sc)
L2 == Sq(r \oplus Rr \oplus uu)
VShell == VSub(PhotonAt(r, uu, ms), ShellAt(Rr, mu, ph))
VRing == VSub(PhotonAt(r, uu, ms), RingAt(Rr, ph))
VAxis == VSub(<<Zero, Zero, r>>, ShellAt(Rr, mu, Zero))

Distances ==
  /\ Near(Sq(XShellMu), Sq(Norm(VShell)), L2)
  /\ Near(Sq(XRingMu), Sq(Norm(VRing)), L2)
  /\ Near(Sq(XShell), Sq(Norm(VAxis)), L2)
\* off-axis formulas reduce to the on-axis ones where the photon has not left the axis
Reduce ==
  /\ REq(uu, 0) => Near(Sq(XShellMu), Sq(XShell), L2) /\ Near(Sq(XRingMu), Sq(XRing), L2)
  /\ REq(ms, 1) => Near(Sq(XRingMu), Sq(Rr) \oplus Sq(r \oplus uu), L2)
Cosines ==
  /\ Near(CosPsiDoc, Dot(Dir(ms, Zero), Dir(mu, ph)), One)
  /\ CosPsiDoc \preceq R("1.0000000001") /\ CosPsiDoc \succeq R("-1.0000000001")
  /\ XShell \succ R("1e-3") =>
       Near(MuStarSq, Sq(VAxis[3] \oslash Norm(VAxis)), L2 \oslash Sq(XShell))

\* ---- quadrature: one logarithmic bin of a power law is its analytical integral
kx == Idx[p[1]]
x0 == Lens[p[2]]
x1 == x0 \otimes <<R("1.3"), R("10"), R("1e6")>>[p[3]]
Analytic(m) == IF REq(m, -1) THEN RLn(x1 \oslash x0)
               ELSE ((x1 ^^ (m \oplus 1)) \ominus (x0 ^^ (m \oplus 1))) \oslash (m \oplus 1)
Bin == IF d("linearBin") THEN Half \otimes (x1 \ominus x0) \otimes ((x0 ^^ kx) \oplus (x1 ^^ kx))
       ELSE LogLogBin(x0, x1, x0 ^^ kx, x1 ^^ kx)
Quadrature ==
  /\ Close(Bin, Analytic(kx), R("1e-9"))
  /\ REq(LogLogBin(x0, x1, Zero, One), 0) /\ REq(LogLogBin(x0, x1, One, Zero), 0)
  \* splitting an interval does not change the integral; the sign carries over
  /\ LET xm == RSqrt(x0 \otimes x1) IN
     Close(LogLogBin(x0, xm, x0 ^^ kx, xm ^^ kx) \oplus LogLogBin(xm, x1, xm ^^ kx, x1 ^^ kx), Bin, R("1e-9"))
  /\ Close(LogLogBin(x0, x1, RNeg(x0 ^^ kx), RNeg(x1 ^^ kx)), RNeg(Analytic(kx)), R("1e-9"))
=============================================================================
