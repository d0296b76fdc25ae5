--------------------------------- MODULE Lib ---------------------------------
(* Module-level functions of the library: geometry, conversions, quadrature,      *)
(* kernels, cross section.  a: the recorded arguments.                            *)
EXTENDS Expect, Ebl

\* Cartesian geometry shared by all angle and distance helpers: jet axis = z; the
\* photon starts at (0, 0, r) and travels u along (sin theta_s, 0, mu_s)
PhotonAt(r, uu, mus) == <<uu \otimes SinOf(mus), Zero, r \oplus (uu \otimes mus)>>
RingAt(Rr, phi) == <<Rr \otimes RCos(phi), Rr \otimes RSin(phi), Zero>>
ShellAt(Rr, mu, phi) ==
  <<Rr \otimes SinOf(mu) \otimes RCos(phi), Rr \otimes SinOf(mu) \otimes RSin(phi), Rr \otimes mu>>
VSub(x, y) == <<x[1] \ominus y[1], x[2] \ominus y[2], x[3] \ominus y[3]>>
Norm(v) == RSqrt(Sq(v[1]) \oplus Sq(v[2]) \oplus Sq(v[3]))
Dot(x, y) == (x[1] \otimes y[1]) \oplus (x[2] \otimes y[2]) \oplus (x[3] \otimes y[3])
Dir(mu, phi) == <<SinOf(mu) \otimes RCos(phi), SinOf(mu) \otimes RSin(phi), ToReal(mu)>>

\* the k-th of n arrays: its shape (size on axis k, 1 elsewhere), then its values
RECURSIVE AxesOf(_, _)
AxesOf(arrs, k) ==
  IF k > Len(arrs) THEN <<>>
  ELSE Tup([j \in 1..Len(arrs) |-> IF j = k THEN Len(arrs[k]) ELSE 1]) \o arrs[k] \o AxesOf(arrs, k + 1)

ScaleOf(s) == MaxAbs(s)
ExpectLib(what, a) ==
  LET ring == VSub(PhotonAt(a.r, a.u, a.mus), RingAt(a.R, a.phi))
      shell == VSub(PhotonAt(a.r, a.u, a.mus), ShellAt(a.R, a.mu, a.phi))
      axis == VSub(<<Zero, Zero, ToReal(a.r)>>, ShellAt(a.R, a.mu, Zero))
      \* rounding of squared distances: relative to the largest length squared
      dist(v, L) == LET n == Norm(v) IN ExF(<<n>>, T9, (R("1e-13") \otimes Sq(L)) \oslash RMax(n, R("1e-7") \otimes L))
      cosx(v, L) == LET n == Norm(v) IN
                    ExF(<<v[3] \oslash n>>, T9, R("1e-12") \otimes Sq(L \oslash n))
      Lr == a.r \oplus a.R
      Lu == a.r \oplus a.R \oplus a.u
      S(x) == Ex(<<x>>, T9) IN
  CASE what = "isotropic_kernel" ->
         ExF(<<IsoKernel(a.g, a.eps, a.epsS)>>, T6, R("1e-9"))
    [] what = "compton_kernel" ->
         ExF(<<Kernel(a.g, a.epsS, a.eps, CosPsi(a.mus, a.mu, a.phi))>>, T6, R("1e-9"))
    [] what = "get_gamma_min" -> Ex(<<GammaMin(a.epsS, a.eps, CosPsi(a.mus, a.mu, a.phi))>>, T7)
    [] what = "sigma" -> ExF(Map(a.s, LAMBDA s : Sigma(s)), T6, R("1e-12") \otimes sT)
    [] what = "cos_psi" -> ExF(<<Dot(Dir(a.mus, Zero), Dir(a.mu, a.phi))>>, T9, R("1e-12"))
    [] what = "x_re_shell" -> dist(axis, Lr)
    [] what = "mu_star_shell" -> ExF(<<axis[3] \oslash Norm(axis)>>, T9, R("3e-7") \otimes (Lr \oslash Norm(axis)))
    [] what = "x_re_ring" -> S(Norm(VSub(<<Zero, Zero, ToReal(a.r)>>, RingAt(a.R, Zero))))
    [] what = "x_re_ring_mu_s" -> dist(ring, Lu)
    [] what = "x_re_shell_mu_s" -> dist(shell, Lu)
    [] what = "direction_ring" ->     \* unit vector rebuilt from the returned azimuth and cosine, times distance
         ExF(ring, T7, R("1e-7") \otimes Lu)
    [] what = "direction_shell" ->
         ExF(shell, T7, R("1e-7") \otimes Lu)
    [] what = "nu_to_epsilon_prime" -> Ex(Map(a.nu, LAMBDA n : EpsPrime(n, a.z, a.dD, a.part)), T9)
    [] what = "B_to_cgs" -> S(a.v)
    [] what = "to_R_g_units" -> S(a.r \oslash ((GG \otimes a.M) \oslash Sq(cc)))
    [] what = "trapz_loglog" -> ExF(Tup([k \in 1..Len(a.y) |-> TrapzLog(a.y[k], a.x)]), T9,
                                    R("1e-12") \otimes a.scale)
    [] what = "power_law_exact" ->   \* k x^m sampled on x: the analytical integral
         LET n == Len(a.x) x0 == a.x[1] x1 == a.x[n] m1 == a.m \oplus 1 IN
         S(a.k \otimes (IF REq(m1, 0) THEN RLn(x1 \oslash x0)
                        ELSE ((x1 ^^ m1) \ominus (x0 ^^ m1)) \oslash m1))
    [] what = "power_law_integral" ->
         LET m1 == 1 \ominus a.p IN
         S(a.k \otimes (IF RAbs(m1) \preceq R("1.001e-5") THEN RLn(a.hi \oslash a.lo)
                        ELSE ((a.hi ^^ m1) \ominus (a.lo ^^ m1)) \oslash m1))
    [] what = "epsilon_inverse" -> Ex(a.nu, T9)
    [] what = "axes" -> Ex(AxesOf(a.arrs, 1), Zero)
    [] what = "log" -> Ex(Map(a.x, LAMBDA x : RLn(Clip(x))), T9)
=============================================================================
