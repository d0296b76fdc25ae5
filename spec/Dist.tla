-------------------------------- MODULE Dist --------------------------------
(* Particle energy distributions: documented densities, self-absorption        *)
(* integrands, integrals and normalisation constructors.  A distribution is a  *)
(* record with a field "kind" and its current parameters (CGS, densities cm-3).*)
EXTENDS Quad

EdgeTol == R("1e-10")

\* knots of an interpolated distribution: non-empty points only, in log10
Knots(d) ==
  LET v == SelectSeq([i \in 1..Len(d.gin) |-> i], LAMBDA i : ~REq(d.nin[i], 0))
      xs == Tup([j \in 1..Len(v) |-> RLog10(d.gin[v[j]])])
      ys == Tup([j \in 1..Len(v) |-> RLog10(d.nin[v[j]])])
  IN  [x |-> xs, y |-> ys, s |-> Tup(Slopes(d.interp, xs, ys)),
       lo |-> d.gin[v[1]], hi |-> d.gin[v[Len(v)]]]
NoKnots == [x |-> <<>>, y |-> <<>>, s |-> <<>>, lo |-> Zero, hi |-> Zero]
KnotsOf(d) == IF d.kind = "InterpolatedDistribution" THEN Knots(d) ELSE NoKnots

\* documented shape at a Lorentz factor inside the range
Shape(d, kn, g) ==
  CASE d.kind = "PowerLaw" -> d.k \otimes (g ^^ RNeg(d.p))
    [] d.kind = "BrokenPowerLaw" ->
         d.k \otimes ((g \oslash d.gamma_b) ^^ RNeg(IF g \preceq d.gamma_b THEN d.p1 ELSE d.p2))
    [] d.kind = "LogParabola" ->
         d.k \otimes ((g \oslash d.gamma_0) ^^
              RNeg(d.p \oplus (d.q \otimes RLog10(g \oslash d.gamma_0))))
    [] d.kind = "ExpCutoffPowerLaw" ->
         d.k \otimes (g ^^ RNeg(d.p)) \otimes RExp(RNeg(g \oslash d.gamma_c))
    [] d.kind = "ExpCutoffBrokenPowerLaw" ->
         d.k \otimes ((g \oslash d.gamma_b) ^^ RNeg(IF g \preceq d.gamma_b THEN d.p1 ELSE d.p2))
             \otimes RExp(RNeg(g \oslash d.gamma_c))
    [] d.kind = "InterpolatedDistribution" ->
         d.norm \otimes Pow10(InterpVal(kn.x, kn.y, kn.s, RLog10(g)))
    [] d.kind = "EmptyDistribution" -> Zero

\* logarithmic slope  d ln n / d ln gamma  inside the range
LogSlope(d, kn, g) ==
  CASE d.kind = "PowerLaw" -> RNeg(d.p)
    [] d.kind = "BrokenPowerLaw" -> RNeg(IF g \preceq d.gamma_b THEN d.p1 ELSE d.p2)
    [] d.kind = "LogParabola" ->
         RNeg(d.p \oplus (2 \otimes d.q \otimes RLog10(g \oslash d.gamma_0)))
    [] d.kind = "ExpCutoffPowerLaw" -> RNeg(d.p) \ominus (g \oslash d.gamma_c)
    [] d.kind = "ExpCutoffBrokenPowerLaw" ->
         RNeg(IF g \preceq d.gamma_b THEN d.p1 ELSE d.p2) \ominus (g \oslash d.gamma_c)
    [] d.kind = "InterpolatedDistribution" -> InterpDer(kn.x, kn.y, kn.s, RLog10(g))
    [] d.kind = "EmptyDistribution" -> Zero

InRange(d, g) == d.gamma_min \preceq g /\ g \preceq d.gamma_max

DensK(d, kn, g) == IF InRange(d, g) THEN Shape(d, kn, g) ELSE Zero
\* gamma^2 d/dgamma (n / gamma^2) = n/gamma * (dln n/dln gamma - 2)
SSAK(d, kn, g) ==
  IF InRange(d, g) THEN (Shape(d, kn, g) \oslash g) \otimes (LogSlope(d, kn, g) \ominus 2) ELSE Zero
Dens(d, g) == DensK(d, KnotsOf(d), g)

\* the first (last) element of an array lies on the lower (upper) limit when it
\* misses it by less than one part in 1e10
Edge(d, i, n, g) ==
  LET lo == IF i = 1 /\ d.gamma_min \succ g
               /\ ((d.gamma_min \ominus g) \oslash g) \prec EdgeTol THEN ToReal(d.gamma_min) ELSE g
  IN  IF i = n /\ lo \succ d.gamma_max
         /\ ((lo \ominus d.gamma_max) \oslash d.gamma_max) \prec EdgeTol
      THEN ToReal(d.gamma_max) ELSE lo
DensArr(d, gs) ==
  LET kn == KnotsOf(d) n == Len(gs) IN
  Tup([i \in 1..n |-> DensK(d, kn, Edge(d, i, n, gs[i]))])
SSAArr(d, gs) ==
  LET kn == KnotsOf(d) n == Len(gs) IN
  Tup([i \in 1..n |-> SSAK(d, kn, Edge(d, i, n, gs[i]))])

\* integral of gamma^pow n over [lo, hi] with the distribution's own rule
DistIntegral(d, lo, hi, pow) ==
  IF d.kind = "EmptyDistribution" THEN Zero ELSE
  LET g == LogGrid(lo, hi, 200)
      n == DensArr(d, g)
  IN  Integ(d.rule, Tup([i \in 1..200 |-> n[i] \otimes (g[i] ^^ pow)]), g)
=============================================================================
