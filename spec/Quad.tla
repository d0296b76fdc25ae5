-------------------------------- MODULE Quad --------------------------------
(* Grids, quadrature rules and interpolation used by every process.            *)
EXTENDS RealArith

Zero == R("0.0")
One  == R("1.0")
Two  == R("2.0")
Half == R("0.5")
Ten  == R("10.0")
PI   == R("3.141592653589793")
Ln10 == R("2.302585092994046")
Ftiny == R("2.2250738585072014e-308")
Fmax  == R("1.7976931348623157e308")

Sq(x) == x \otimes x
Cube(x) == x \otimes x \otimes x
Pow10(x) == Ten ^^ x

\* ---------------------------------------------------------------- grids
Linspace(a, b, n) ==
  Tup([i \in 1..n |-> IF i = n THEN ToReal(b)
                      ELSE ToReal(a) \oplus ((i - 1) \otimes ((b \ominus a) \oslash (n - 1)))])
Logspace(la, lb, n) ==
  LET e == Linspace(la, lb, n) IN Tup([i \in 1..n |-> Pow10(e[i])])
\* logarithmic grid between two values
LogGrid(a, b, n) == Logspace(RLog10(a), RLog10(b), n)

\* ---------------------------------------------------------------- quadrature
TrapzLin(y, x) ==
  RSum(Tup([i \in 1..(Len(x) - 1) |->
        Half \otimes (x[i+1] \ominus x[i]) \otimes (y[i+1] \oplus y[i])]))

Clip(v) == RMin(RMax(v, Ftiny), Fmax)
\* exact integral of the power law through two points (same sign), linear otherwise,
\* nothing when one end is zero
LogLogBin(xl, xu, yl, yu) ==
  IF REq(yl, 0) \/ REq(yu, 0) \/ REq(xl, xu) THEN Zero
  ELSE IF (yl \prec 0) # (yu \prec 0) THEN Half \otimes (xu \ominus xl) \otimes (yl \oplus yu)
  ELSE LET m == (RLn(Clip(RAbs(yl))) \ominus RLn(Clip(RAbs(yu)))) \oslash (RLn(xl) \ominus RLn(xu))
           q == xu \oslash xl
           s == q ^^ RNeg(RAbs(m))      \* smaller end over larger end
       IN  IF RAbs(m \oplus 1) \succ R("1e-10")
           THEN (IF m \succ 0 THEN yu \otimes (xu \ominus (xl \otimes s))
                 ELSE yl \otimes ((xu \otimes s) \ominus xl)) \oslash (m \oplus 1)
           ELSE xl \otimes yl \otimes RLn(q)
TrapzLog(y, x) ==
  RSum(Tup([i \in 1..(Len(x) - 1) |-> LogLogBin(x[i], x[i+1], y[i], y[i+1])]))

\* what the bins contribute one end of which may or may not have underflown to zero
Brink == R("1e-270")
BrinkLog(y, x) ==
  LET raised == Tup([i \in 1..Len(x) |-> IF REq(y[i], 0) THEN Zero ELSE RMax(RAbs(y[i]), Brink)]) IN
  RSum(Tup([i \in 1..(Len(x) - 1) |->
        IF REq(raised[i], Brink) \/ REq(raised[i+1], Brink)
        THEN LogLogBin(x[i], x[i+1], raised[i], raised[i+1]) ELSE Zero]))

\* the integration rule is a parameter of distributions and processes
Integ(rule, y, x) ==
  IF rule = "loglog" THEN TrapzLog(y, x) ELSE IF rule = "brink" THEN BrinkLog(y, x) ELSE TrapzLin(y, x)
\* an element which is not zero, but perhaps rounded to zero
LiftTo(rule, y) == IF rule = "brink" /\ RAbs(y) \prec R("1e-300") THEN R("1e-300") ELSE y

\* ---------------------------------------------------------------- interpolation
\* index i such that x lies in [xs[i], xs[i+1]] (first/last interval outside)
RECURSIVE BisectFrom(_, _, _, _)
BisectFrom(xs, x, lo, hi) ==
  IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2 IN
       IF xs[m] \preceq x THEN BisectFrom(xs, x, m, hi) ELSE BisectFrom(xs, x, lo, m)
Bracket(xs, x) == BisectFrom(xs, x, 1, Len(xs))

\* Hermite cubic on an interval, from end values and end slopes
HermVal(x0, x1, y0, y1, d0, d1, x) ==
  LET h == x1 \ominus x0
      t == (x \ominus x0) \oslash h
      t2 == t \otimes t
      t3 == t2 \otimes t
  IN  (((2 \otimes t3) \ominus (3 \otimes t2) \oplus 1) \otimes y0)
      \oplus ((t3 \ominus (2 \otimes t2) \oplus t) \otimes h \otimes d0)
      \oplus (((3 \otimes t2) \ominus (2 \otimes t3)) \otimes y1)
      \oplus ((t3 \ominus t2) \otimes h \otimes d1)
HermDer(x0, x1, y0, y1, d0, d1, x) ==
  LET h == x1 \ominus x0
      t == (x \ominus x0) \oslash h
      t2 == t \otimes t
  IN  ((((6 \otimes t2) \ominus (6 \otimes t)) \otimes (y0 \ominus y1)) \oslash h)
      \oplus (((3 \otimes t2) \ominus (4 \otimes t) \oplus 1) \otimes d0)
      \oplus (((3 \otimes t2) \ominus (2 \otimes t)) \otimes d1)

\* slopes of the monotone (Fritsch-Carlson) cubic
PchipEdge(h0, h1, m0, m1) ==
  LET d == ((((2 \otimes h0) \oplus h1) \otimes m0) \ominus (h0 \otimes m1)) \oslash (h0 \oplus h1)
      sg(v) == IF v \succ 0 THEN 1 ELSE IF v \prec 0 THEN -1 ELSE 0
  IN  IF sg(d) # sg(m0) THEN Zero
      ELSE IF sg(m0) # sg(m1) /\ RAbs(d) \succ (3 \otimes RAbs(m0)) THEN 3 \otimes m0
      ELSE d
PchipSlopes(xs, ys) ==
  LET n == Len(xs)
      h == Tup([i \in 1..(n-1) |-> xs[i+1] \ominus xs[i]])
      m == Tup([i \in 1..(n-1) |-> (ys[i+1] \ominus ys[i]) \oslash h[i]])
  IN  IF n = 2 THEN <<m[1], m[1]>>
      ELSE Tup([i \in 1..n |->
             IF i = 1 THEN PchipEdge(h[1], h[2], m[1], m[2])
             ELSE IF i = n THEN PchipEdge(h[n-1], h[n-2], m[n-1], m[n-2])
             ELSE IF ~((m[i-1] \otimes m[i]) \succ 0) THEN Zero
             ELSE LET w1 == (2 \otimes h[i]) \oplus h[i-1]
                      w2 == h[i] \oplus (2 \otimes h[i-1])
                  IN  (w1 \oplus w2) \oslash ((w1 \oslash m[i-1]) \oplus (w2 \oslash m[i]))])

\* slopes of the C2 cubic spline with not-a-knot ends: tridiagonal system (Thomas)
\* rows: <<sub, diag, super, rhs>>
RECURSIVE Forward(_, _, _, _)
Forward(rows, i, cp, dp) ==
  IF i > Len(rows) THEN <<cp, dp>>
  ELSE LET r == rows[i]
           den == r[2] \ominus (r[1] \otimes cp[i-1])
       IN  Forward(rows, i + 1, Append(cp, r[3] \oslash den),
                   Append(dp, (r[4] \ominus (r[1] \otimes dp[i-1])) \oslash den))
RECURSIVE Backward(_, _, _, _)
Backward(cp, dp, i, acc) ==
  IF i = 0 THEN acc
  ELSE Backward(cp, dp, i - 1, <<dp[i] \ominus (cp[i] \otimes acc[1])>> \o acc)
SplineSlopes(xs, ys) ==
  LET n == Len(xs)
      h == Tup([i \in 1..(n-1) |-> xs[i+1] \ominus xs[i]])
      m == Tup([i \in 1..(n-1) |-> (ys[i+1] \ominus ys[i]) \oslash h[i]])
      hs == h[1] \oplus h[2]
      he == h[n-1] \oplus h[n-2]
      rows == Tup([i \in 1..n |->
        IF i = 1 THEN <<Zero, h[2], hs,
             (((h[1] \oplus (2 \otimes hs)) \otimes h[2] \otimes m[1]) \oplus (Sq(h[1]) \otimes m[2])) \oslash hs>>
        ELSE IF i = n THEN <<he, h[n-2], Zero,
             ((Sq(h[n-1]) \otimes m[n-2]) \oplus (((2 \otimes he) \oplus h[n-1]) \otimes h[n-2] \otimes m[n-1])) \oslash he>>
        ELSE <<h[i], 2 \otimes (h[i-1] \oplus h[i]), h[i-1],
               3 \otimes ((h[i] \otimes m[i-1]) \oplus (h[i-1] \otimes m[i]))>>])
      f == Forward(rows, 2, <<rows[1][3] \oslash rows[1][2]>>, <<rows[1][4] \oslash rows[1][2]>>)
  IN  \* n >= 4 (for n = 3 the two end conditions coincide: a parabola)
      IF n = 2 THEN <<m[1], m[1]>>
      ELSE IF n = 3 THEN
        LET c2 == (m[2] \ominus m[1]) \oslash (xs[3] \ominus xs[1])
        IN  <<m[1] \ominus (c2 \otimes h[1]), m[1] \oplus (c2 \otimes h[1]),
              m[2] \oplus (c2 \otimes h[2])>>
      ELSE Backward(f[1], f[2], n - 1, <<f[2][n]>>)

Slopes(kind, xs, ys) == IF kind = "pchip" THEN PchipSlopes(xs, ys) ELSE SplineSlopes(xs, ys)

InterpVal(xs, ys, ds, x) ==
  LET i == Bracket(xs, x) IN HermVal(xs[i], xs[i+1], ys[i], ys[i+1], ds[i], ds[i+1], x)
InterpDer(xs, ys, ds, x) ==
  LET i == Bracket(xs, x) IN HermDer(xs[i], xs[i+1], ys[i], ys[i+1], ds[i], ds[i+1], x)

\* ---------------------------------------------------------------- comparison
\* |a - b| <= tol * max(|a|, |b|), equal infinities; NaN is close to nothing
Close(a, b, tol) ==
  \/ REq(a, b)
  \/ /\ IsFin(a) /\ IsFin(b)
     /\ RAbs(a \ominus b) \preceq (tol \otimes RMax(RAbs(a), RAbs(b)))
\* with an absolute floor, for results of cancelling or underflowing sums
CloseAbs(a, b, tol, floor) ==
  \/ Close(a, b, tol)
  \/ /\ IsFin(a) /\ IsFin(b) /\ RAbs(a \ominus b) \preceq floor
MaxAbs(s) == LET RECURSIVE mx(_, _)
                 mx(i, acc) == IF i > Len(s) THEN acc ELSE mx(i + 1, RMax(acc, RAbs(s[i])))
             IN  mx(1, Zero)
=============================================================================
