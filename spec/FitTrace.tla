------------------------------- MODULE FitTrace -------------------------------
(* Trace validation of fit models.  env: model -> configuration and the value its   *)
(* parameters must have now (P).  Every event reports the parameters of all models;  *)
(* an evaluation must be the sum of the components for the physical parameters that   *)
(* P encodes.                                                                        *)
EXTENDS Expect, FitNames

CONSTANTS TraceFile, Clauses
Trace == JsonTrace(TraceFile)
N == Len(Trace)
VARIABLES i, env, nobs, nbad
vars == <<i, env, nobs, nbad>>

T12 == R("1e-12")
L10(x) == RLog10(ToReal(x))
P10(x) == 10 ^^ x
\* logarithms are compared absolutely (they cross zero)
SameVal(a, b) == IsReal(a) /\ CloseAbs(a, b, T12, T12)

\* ---- defaults and limits: <<value, min, max, frozen, unit>>
D(v, lo, hi, fz, un) == [value |-> v, min |-> lo, max |-> hi, frozen |-> fz, unit |-> un]
Fixed(n) ==
  CASE n = "z" -> D(R("0.1"), R("0.001"), 10, TRUE, "")
    [] n = "delta_D" -> D(10, 1, 100, FALSE, "")
    [] n = "log10_B" -> D(-2, -4, 2, FALSE, "")
    [] n = "t_var" -> D(600, 10, PI \otimes R("1e7"), FALSE, "s")
    [] n = "mu_s" -> D(0, 0, 1, TRUE, "")
    [] n = "log10_r" -> D(18, 16, 22, TRUE, "")
    [] n = "log10_L_disk" -> D(45, 42, 48, TRUE, "")
    [] n = "M_BH" -> D(R("1e42"), R("1e32"), R("1e45"), TRUE, "g")
    [] n = "m_dot" -> D(R("1e26"), R("1e24"), R("1e30"), TRUE, "g s-1")
    [] n = "R_in" -> D(R("1e14"), R("1e12"), R("1e16"), TRUE, "cm")
    [] n = "R_out" -> D(R("1e17"), R("1e12"), R("1e19"), TRUE, "cm")
    [] n = "xi_line" -> D(R("0.6"), 0, 1, TRUE, "")
    [] n = "lambda_line" -> D(R("1215.67"), 900, 7000, TRUE, "Angstrom")
    [] n = "R_line" -> D(R("1e17"), R("1e16"), R("1e18"), TRUE, "cm")
    [] n = "xi_dt" -> D(R("0.6"), 0, 1, TRUE, "")
    [] n = "T_dt" -> D(1000, 100, 10000, TRUE, "K")
    [] n = "R_dt" -> D(R("3e18"), R("1e17"), R("1e20"), TRUE, "cm")
\* parameters of the shape, from the distribution the model is built from
ShapeD(n, d) ==
  CASE n = "log10_k" -> D(L10(d.k), -15, 15, FALSE, "")
    [] n = "log10_norm" -> D(L10(d.norm), -3, 3, FALSE, "")
    [] n = "log10_gamma_min" -> D(L10(d.gamma_min), 0, 4, TRUE, "")
    [] n = "log10_gamma_max" -> D(L10(d.gamma_max), 4, 8, TRUE, "")
    [] n = "log10_gamma_b" -> D(L10(d.gamma_b), 2, 6, FALSE, "")
    [] n = "log10_gamma_0" -> D(L10(d.gamma_0), 2, 6, FALSE, "")
    [] n = "log10_gamma_c" -> D(L10(d.gamma_c), 2, 6, FALSE, "")
    [] n \in {"p", "p1", "p2"} -> D(d[n], 1, 5, FALSE, "")
    [] n = "q" -> D(d.q, R("0.001"), 1, FALSE, "")
Described(c, d) == [n \in NameSet(c) |-> IF In(n, ShapeP(c.shape)) THEN ShapeD(n, d) ELSE Fixed(n)]

\* ---- what the loaders assign
Beta(G) == RSqrt(1 \ominus (1 \oslash Sq(G)))
FromRegion(b) ==
  [z |-> b.z, delta_D |-> b.delta_D, log10_B |-> L10(b.B),
   t_var |-> ((1 \oplus b.z) \otimes b.R_b) \oslash (cc \otimes b.delta_D),
   mu_s |-> (1 \ominus (1 \oslash (b.Gamma \otimes b.delta_D))) \oslash Beta(b.Gamma),
   log10_r |-> L10(b.r)]
FromDisk(k) ==
  [log10_L_disk |-> L10(k.L), M_BH |-> k.M, m_dot |-> k.L \oslash (k.eta \otimes Sq(cc)), R_in |-> k.R_in, R_out |-> k.R_out]
FromBlr(b) == [xi_line |-> b.xi, lambda_line |-> b.lambda, R_line |-> b.R]
FromDt(t) == [xi_dt |-> t.xi, T_dt |-> t.T, R_dt |-> t.R]
Restrict(f, S) == [x \in (DOMAIN f \cap S) |-> f[x]]
Over(f, g) == f @@ g

\* ---- the physical parameters encoded by P
Physical(c, P) ==
  LET base == [z |-> P.z, delta_D |-> P.delta_D, B |-> P10(P.log10_B),
               R_b |-> (cc \otimes P.t_var \otimes P.delta_D) \oslash (1 \oplus P.z)]
      ec == IF c.scen = "ssc" THEN <<>>
            ELSE [mu_s |-> P.mu_s, r |-> P10(P.log10_r), L_disk |-> P10(P.log10_L_disk), M_BH |-> P.M_BH, m_dot |-> P.m_dot,
                  R_in |-> P.R_in, R_out |-> P.R_out]
      blr == IF c.scen = "ec" /\ In("blr", c.tgts)
             THEN [xi_line |-> P.xi_line, R_line |-> P.R_line,
                   eps_line |-> ((hh \otimes cc) \oslash (P.lambda_line \otimes R("1e-8"))) \oslash mec2] ELSE <<>>
      dt == IF c.scen = "ec" /\ In("dt", c.tgts)
            THEN [xi_dt |-> P.xi_dt, R_dt |-> P.R_dt, T_dt |-> P.T_dt,
                  eps_dt |-> (R("2.7") \otimes kB \otimes P.T_dt) \oslash mec2] ELSE <<>>
      sh == [x \in DOMAIN c.back |-> IF c.back[x] \in {"p", "p1", "p2", "q"} THEN P[c.back[x]] ELSE P10(P[c.back[x]])]
  IN  base @@ ec @@ blr @@ dt @@ sh
\* shape parameter -> fit parameter
Back(s) ==
  LET log(n) == IF n \in {"p", "p1", "p2", "q"} THEN n ELSE "log10_" \o n
      keys == CASE s = "PowerLaw" -> {"k", "p", "gamma_min", "gamma_max"}
                [] s = "BrokenPowerLaw" -> {"k", "p1", "p2", "gamma_b", "gamma_min", "gamma_max"}
                [] s = "LogParabola" -> {"k", "p", "q", "gamma_0", "gamma_min", "gamma_max"}
                [] s = "ExpCutoffPowerLaw" -> {"k", "p", "gamma_c", "gamma_min", "gamma_max"}
                [] s = "ExpCutoffBrokenPowerLaw" -> {"k", "p1", "p2", "gamma_c", "gamma_b", "gamma_min", "gamma_max"}
                [] s = "InterpolatedDistribution" -> {"norm", "gamma_min", "gamma_max"}
  IN  [x \in keys |-> log(x)]
\* the components of the model
Components(c) ==
  {"synch", "ssc"} \cup (IF c.scen = "ec" THEN {"disk"} ELSE {})
  \cup (IF c.scen = "ec" /\ In("blr", c.tgts) THEN {"ec_blr"} ELSE {})
  \cup (IF c.scen = "ec" /\ In("dt", c.tgts) THEN {"ec_dt", "dt"} ELSE {})
RECURSIVE SumOver(_, _, _)
SumOver(f, S, k) == IF S = {} THEN Zero ELSE LET x == CHOOSE x \in S : TRUE IN f[x][k] \oplus SumOver(f, S \ {x}, k)

\* ---- judging
F(ok, clause, got, want) == IF ok \/ clause \notin Clauses THEN <<>> ELSE <<<<clause, ToString(got), ToString(want)>>>>
Order(pars) == [k \in 1..Len(pars) |-> pars[k].name]
Plain(m, pars) == IF m.c.backend = "gammapy" THEN SubSeq(pars, 1, Len(pars) - 1) ELSE pars
NormOk(m, pars) ==
  m.c.backend = "gammapy" =>
    LET q == pars[Len(pars)] IN
    q.name = "norm" /\ REq(q.value, 1) /\ SameVal(q.min, R("0.1")) /\ REq(q.max, 10) /\ q.frozen
One1(id, m, pars) ==
  LET p == Plain(m, pars) nm == Tup(Order(p)) IN
  IF nm # Tup(Names(m.c)) \/ ~NormOk(m, pars) THEN F(FALSE, "names", <<id, nm>>, Names(m.c))
  ELSE LET bad == SelectSeq(p, LAMBDA x : ~SameVal(x.value, m.P[x.name])) IN
       (IF bad = <<>> THEN <<>> ELSE F(FALSE, "value", <<id, bad[1]>>, m.P[bad[1].name]))
       \o LET bl == SelectSeq(p, LAMBDA x : ~(SameVal(x.min, m.D[x.name].min) /\ SameVal(x.max, m.D[x.name].max)
                                              /\ x.frozen = m.D[x.name].frozen /\ x.unit = m.D[x.name].unit)) IN
          (IF bl = <<>> THEN <<>> ELSE F(FALSE, "limits", <<id, bl[1]>>, m.D[bl[1].name]))
RECURSIVE Everyone(_, _, _)
Everyone(e, pars, S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN
                        One1(x, e[x], pars[x]) \o Everyone(e, pars, S \ {x})

Evaluated(ev, m) ==
  LET ph == Physical(m.c, IF Has(ev, "over") THEN ev.over @@ m.P ELSE m.P)
      bad == {x \in DOMAIN ph : ~(x \in DOMAIN ev.phys /\ CloseAbs(ev.phys[x], ph[x], R("1e-10"), Zero))}
      comp == Components(m.c)
      tot(k) == SumOver(ev.comp, comp, k)
      res(k) == IF m.c.backend = "gammapy" /\ ev.density THEN ev.res[k] \otimes Sq(ev.E[k]) \otimes eVerg ELSE ev.res[k]
      tol == IF m.c.ssa THEN R("1e-6") ELSE R("1e-8")
      \* a component is not a number exactly on a shell (r = R_line, where the density of photons diverges)
      off == {k \in 1..Len(ev.E) : ~(IF IsFin(tot(k)) THEN IsFin(res(k)) /\ CloseAbs(res(k), tot(k), tol, R("1e-60")) ELSE ~IsFin(res(k)))}
  IN  F(bad = {} /\ DOMAIN ev.comp = comp, "driver", ev.phys, ph)
      \o F(Len(ev.res) = Len(ev.E), "shape", Len(ev.res), Len(ev.E))
      \o (IF Len(ev.res) # Len(ev.E) \/ off = {} THEN <<>>
          ELSE LET k == CHOOSE k \in off : TRUE IN F(FALSE, "sum", res(k), tot(k)))
      \o F(ev.same, "argument", "modified", "")

Applied(ev) ==
  CASE ev.op = "new" ->
         LET c == [back |-> Back(ev.c.shape)] @@ ev.c
             ds == Described(c, ev.d) IN
         (ev.id :> [c |-> c, D |-> ds, P |-> [n \in DOMAIN ds |-> ds[n].value]]) @@ env
    [] ev.op = "set" -> (ev.id :> ([P |-> (ev.f :> ev.v) @@ env[ev.id].P] @@ env[ev.id])) @@ env
    [] ev.op = "region" ->
         LET m == env[ev.id] IN
         (ev.id :> ([P |-> Restrict(FromRegion(ev.b), RegionSet(m.c)) @@ m.P] @@ m)) @@ env
    [] ev.op = "targets" ->
         LET m == env[ev.id]
             g == FromDisk(ev.disk) @@ (IF Has(ev, "blr") THEN FromBlr(ev.blr) ELSE <<>>) @@ (IF Has(ev, "dt") THEN FromDt(ev.dt) ELSE <<>>)
         IN (ev.id :> ([P |-> g @@ m.P] @@ m)) @@ env
    [] ev.op = "reset" -> <<>>
    [] OTHER -> env
Judge(k, ev) ==
  LET e2 == Applied(ev)
      fs == IF ev.op = "reset" THEN <<>>
            ELSE IF ev.err # "" THEN F(FALSE, "error", ev.err, "")
            ELSE (IF ev.op = "look" /\ Has(ev, "res") THEN Evaluated(ev, e2[ev.id]) ELSE <<>>)
                 \o (IF Has(ev, "pars") THEN Everyone(e2, ev.pars, DOMAIN e2) ELSE <<>>)
                 \o (IF Has(ev, "groups")
                     THEN LET m == e2[ev.id] g == ev.groups IN
                          F(/\ g.spectral = Tup(ShapeP(m.c.shape)) /\ g.region = Tup(RegionP(m.c.scen))
                            /\ (m.c.scen = "ec" => g.targets = Tup(TargetP(m.c))), "groups", g, "")
                     ELSE <<>>)
      told == \A j \in 1..Len(fs) : PrintT(<<"BAD", k, ev.id, ev.op, fs[j][1], j, fs[j][2], fs[j][3]>>)
  IN  [bad |-> IF told THEN Len(fs) ELSE Len(fs), env |-> e2]

Init == i = 1 /\ env = <<>> /\ nobs = 0 /\ nbad = 0
Next == /\ i <= N
        /\ \E r \in {Judge(i, Trace[i])} : nbad' = nbad + r.bad /\ env' = r.env
        /\ nobs' = nobs + (IF Trace[i].op # "reset" THEN 1 ELSE 0)
        /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Report == (i = N + 1) => PrintT(<<"VERDICT", N, nobs, nbad>>)
=============================================================================
