------------------------------ MODULE EvolTrace ------------------------------
(* Trace validation of time evolutions.  The trace holds, per evolution, its      *)
(* configuration, the calls of the user's rate functions (arguments and returned  *)
(* values), what the callback was given after every step, and the region's        *)
(* distribution at that moment.  Every step is compared with the successor of the *)
(* previous state given by TimeEvo; the state then continues from the reported    *)
(* one.  Clauses names the clauses that count for the property being decided.     *)
EXTENDS TimeEvo

CONSTANTS TraceFile, Clauses
Trace == JsonTrace(TraceFile)
N == Len(Trace)
VARIABLES i, st, cfg, nobs, nbad
vars == <<i, st, cfg, nobs, nbad>>

Tol == R("1e-9")
CloseTo(a, b) == IsReal(a) /\ (CloseAbs(a, b, Tol, Zero) \/ REq(a, b) \/ (IsNaN(a) /\ IsNaN(b)))
NearTo(a, b, tol, floor) == IsReal(a) /\ (CloseAbs(a, b, tol, floor) \/ REq(a, b))
AllNear(s, t, tol, floor) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : NearTo(s[k], t[k], tol, floor)
RowsNear(s, t, tol, floor) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : AllNear(s[k], t[k], tol, floor)

FlatSeq(ss) == LET RECURSIVE f(_)
                  f(k) == IF k > Len(ss) THEN <<>> ELSE ss[k] \o f(k + 1)
              IN  f(1)
\* failing clauses: sequence of <<clause, got, expected>>
F(ok, clause, got, want) == IF ok THEN <<>> ELSE <<<<clause, ToString(got), ToString(want)>>>>
Tell(k, ev, fs) ==
  LET c == SelectSeq(fs, LAMBDA f : f[1] \in Clauses) IN
  IF c = <<>> THEN 0
  ELSE IF PrintT(<<"BAD", k, ev.id, ev.op, c[1][1], Len(c), c[1][2], c[1][3]>>) THEN 1 ELSE 1

\* ---------------------------------------------------------------- calls of rate functions
AllLabels(C) == C.en \o C.rel \o C.ab
IsEn(C, l) == l \in Labels(C.en)
LbOf(C, l, c) == IF IsEn(C, l) THEN Tup([k \in 1..(Len(c.g) \div 2) |-> c.g[2 * k - 1]]) ELSE c.g
UbOf(c) == Tup([k \in 1..(Len(c.g) \div 2) |-> c.g[2 * k]])
LoOf(C, l, c) == IF IsEn(C, l) THEN Tup([k \in 1..(Len(c.r) \div 2) |-> c.r[2 * k - 1]]) ELSE c.r
HiOf(c) == Tup([k \in 1..(Len(c.r) \div 2) |-> c.r[2 * k]])
\* position in lb of each lower bound given to the function (0: none)
Positions(lb, gs, tol) ==
  Tup([k \in 1..Len(gs) |->
    LET m == {j \in 1..Len(lb) : NearTo(gs[k], lb[j], tol, Zero)} IN
    IF m = {} THEN 0 ELSE IF k \in m THEN k ELSE CHOOSE j \in m : TRUE])
\* the arguments belong to one state: bins, densities, fractions and the region's distribution
CallOk(C, l, c, lb, ub, dens, fr, tol) ==
  LET gs == LbOf(C, l, c)
      pos == Positions(lb, gs, tol)
      M == Len(gs)
      dmax == MaxAbs(dens)
  IN  IF \E k \in 1..M : pos[k] = 0 THEN F(FALSE, "call", <<l, "bins", gs>>, lb)
      ELSE F(Len(c.r) = Len(c.g), "call", <<l, "length">>, "")
        \o F(IF IsEn(C, l) THEN AllNear(UbOf(c), Tup([k \in 1..M |-> ub[pos[k]]]), tol, Zero) ELSE TRUE,
             "call", <<l, "upper", c.g>>, ub)
        \o F(AllNear(c.d, Tup([k \in 1..M |-> dens[pos[k]]]), R("1e-7"), Tiny),
             "call", <<l, "densities", c.d>>, dens)
        \o F(Len(c.s) = Len(fr) /\ \A x \in 1..Len(fr) :
               AllNear(c.s[x], Tup([k \in 1..M |-> fr[x][pos[k]]]), R("1e-7"), R("1e-9")),
             "call", <<l, "fractions", c.s>>, fr)
        \o F(\A k \in 1..M : ~REq(c.d[k], 0) => NearTo(c.ne[k], c.d[k], R("1e-6"), Tiny),
             "call", <<l, "region", c.ne>>, c.d)
LastCall(ev, l) == LET s == ev.calls[l] IN s[Len(s)]
HasCall(ev, l) == Has(ev.calls, l) /\ Len(ev.calls[l]) > 0
\* bins whose rates were computed again: those given to every function
Renewed(C, ev, lb) ==
  [l \in Labels(AllLabels(C)) |->
     IF HasCall(ev, l) THEN LET p == Positions(lb, LbOf(C, l, LastCall(ev, l)), R("1e-12")) IN {p[k] : k \in 1..Len(p)}
     ELSE {}]

\* ---------------------------------------------------------------- start of an evolution
Start(ev, S0) ==
  LET C == ev.C
      ne == IF Has(ev, "ne") THEN MkDist(ev.ne.kind, ev.ne) ELSE S0.ne
      S == InitialState(C, ne)
      ls == AllLabels(C)
      fs == FlatSeq([k \in 1..Len(ls) |->
              IF ~HasCall(ev, ls[k]) THEN F(FALSE, "call", <<ls[k], "not called">>, "")
              ELSE CallOk(C, ls[k], LastCall(ev, ls[k]), S.lb, S.ub, S.dens, S.fr, Tol)
                   \o F(Len(LbOf(C, ls[k], LastCall(ev, ls[k]))) = NB(S), "call", <<ls[k], "number of bins">>, NB(S))])
      ok == \A k \in 1..Len(ls) : HasCall(ev, ls[k]) /\ Len(LbOf(C, ls[k], LastCall(ev, ls[k]))) = NB(S)
      c(l) == LastCall(ev, l)
      S1 == IF ~ok THEN [lost |-> TRUE] @@ S
            ELSE
            [lb |-> IF Len(ls) = 0 THEN S.lb ELSE Tup(LbOf(C, ls[1], c(ls[1]))),
             dens |-> IF Len(ls) = 0 THEN S.dens ELSE c(ls[1]).d,
             lo |-> [l \in Labels(C.en) |-> LoOf(C, l, c(l))],
             hi |-> [l \in Labels(C.en) |-> HiOf(c(l))],
             rel |-> [l \in Labels(C.rel) |-> c(l).r],
             ab |-> [l \in Labels(C.ab) |-> c(l).r]] @@ S
      S2 == IF ~ok THEN S1 ELSE [ub |-> Tup([k \in 1..NB(S) |-> Upper(S1.lb[k])])] @@ S1
      first == IF fs = <<>> THEN <<>> ELSE F(FALSE, "start", fs[1][2], fs[1][3])
  IN  [fs |-> fs \o first, S |-> IF ~ok \/ ~C.auto THEN S2
                        ELSE [left |-> MaxTimes(C, S2, Grouped(C, S2, S2.lo, S2.hi))] @@ S2]

\* ---------------------------------------------------------------- a step
\* length of the step from state S
StepTime(C, S) ==
  LET want == IF C.auto THEN MinOf(S.left) ELSE ToReal(C.dt)
      rem == C.total \ominus S.t
  IN  RMin(want, rem)
\* the energy-change rates used: of the state, or averaged with those of the far end
Labelled(C, ev, l) == IF Has(ev.calls, l) THEN ev.calls[l] ELSE <<>>
HeunLo(C, S, ev) == [l \in Labels(C.en) |-> LET r == LoOf(C, l, ev.calls[l][1]) IN
                       Tup([k \in 1..NB(S) |-> Half \otimes (S.lo[l][k] \oplus r[k])])]
HeunHi(C, S, ev) == [l \in Labels(C.en) |-> LET r == HiOf(ev.calls[l][1]) IN
                       Tup([k \in 1..NB(S) |-> Half \otimes (S.hi[l][k] \oplus r[k])])]
\* everything that follows from S, dt and the calls made meanwhile
Successor(C, S, dt, ev) ==
  LET G1 == Tup(Grouped(C, S, S.lo, S.hi))
      M1 == Tup([x \in 1..NGroups(C) |-> Moved(S, G1[x], dt)])
      bad1 == LET b == {Impossible(S, G1[x], M1[x], dt) : x \in 1..NGroups(C)} IN IF 2 \in b THEN 2 ELSE IF 1 \in b THEN 1 ELSE 0
      empty1 == C.auto /\ \E x \in 1..NGroups(C) : \E k \in 1..NB(S) : REq(G1[x].d[k], 0) /\ G1[x].ab[k] \prec 0
      mix1 == CannotMix(M1)
      U1 == Mixed(M1, S.fr)
      carry1 == CannotCarry(Sorted(U1))
  IN  IF bad1 = 2 \/ empty1 THEN [must |-> TRUE, may |-> TRUE, heun |-> <<>>]
      ELSE IF mix1 \/ carry1 THEN [must |-> FALSE, may |-> TRUE, heun |-> <<>>]
      ELSE IF ~C.heun THEN [must |-> FALSE, may |-> bad1 = 1, heun |-> <<>>, U |-> U1, e |-> G1[1].lo]
      ELSE IF \E l \in Labels(C.en) : Len(Labelled(C, ev, l)) = 0 \/ Len(ev.calls[l][1].g) # 2 * NB(S)
      THEN [must |-> FALSE, may |-> bad1 = 1, heun |-> F(bad1 = 1, "call", "no call at the far end of the step", "")]
      ELSE
      LET hf == FlatSeq([k \in 1..Len(C.en) |->
                  CallOk(C, C.en[k], ev.calls[C.en[k]][1], U1.lb, U1.ub, U1.dens, U1.fr, Tol)])
          G2 == Tup(Grouped(C, S, HeunLo(C, S, ev), HeunHi(C, S, ev)))
          M2 == Tup([x \in 1..NGroups(C) |-> Moved(S, G2[x], dt)])
          bad2 == LET b == {Impossible(S, G2[x], M2[x], dt) : x \in 1..NGroups(C)} IN IF 2 \in b THEN 2 ELSE IF 1 \in b THEN 1 ELSE 0
          U2 == Mixed(M2, S.fr)
      IN  IF bad2 = 2 THEN [must |-> TRUE, may |-> TRUE, heun |-> hf]
          ELSE IF CannotMix(M2) \/ CannotCarry(Sorted(U2)) THEN [must |-> FALSE, may |-> TRUE, heun |-> hf]
          ELSE [must |-> FALSE, may |-> bad1 = 1 \/ bad2 = 1, heun |-> hf, U |-> U2, e |-> G2[1].lo]

CheckNe(ev, allzero) ==
  LET dmax == MaxAbs(ev.d) IN
  F(\A k \in 1..Len(ev.g) : ~REq(ev.d[k], 0) => NearTo(ev.ne.v[k], ev.d[k], R("1e-8"), Tiny),
    "ne", ev.ne.v, ev.d)
  \o F(allzero = (ev.ne.kind = "EmptyDistribution"), "ne", ev.ne.kind, allzero)
CheckSum(ev) ==
  LET N0 == Len(ev.g) IN
  F(/\ \A x \in 1..Len(ev.s) : Len(ev.s[x]) = N0 /\ \A k \in 1..N0 : ev.s[x][k] \succeq R("-1e-12")
    /\ \A k \in 1..N0 : ~REq(ev.d[k], 0) =>
         CloseAbs(RSum(Tup([x \in 1..Len(ev.s) |-> ev.s[x][k]])), One, R("1e-9"), Zero),
    "sum", ev.s, "sums to one")
CheckLabels(C, ev) ==
  F(/\ DOMAIN ev.en = Labels(C.en) /\ DOMAIN ev.rel = Labels(C.rel) /\ DOMAIN ev.ab = Labels(C.ab),
    "labels", <<DOMAIN ev.en, DOMAIN ev.rel, DOMAIN ev.ab>>, <<C.en, C.rel, C.ab>>)

\* the region's distribution, its knots being the reported Lorentz factors themselves
Snapped(ne, ev) ==
  IF ne.kind = "EmptyDistribution" THEN ne
  ELSE LET p == Positions(ev.g, ne.gin, R("1e-11")) IN
       AsDist(Tup([k \in 1..Len(p) |-> IF p[k] = 0 THEN ne.gin[k] ELSE ev.g[p[k]]]), ne.nin)

\* fractions after bin management: those of the bin of origin
FracOk(C, ev, U, P) ==
  /\ Len(ev.s) = NGroups(C)
  /\ \A x \in 1..Len(ev.s) : Len(ev.s[x]) = Len(ev.g)
  /\ \A k \in 1..Len(ev.g) :
       LET like(w) == \A x \in 1..Len(ev.s) : NearTo(ev.s[x][k], w[x], R("1e-6"), R("1e-9"))
           of(fr, j) == [x \in 1..Len(ev.s) |-> fr[x][j]]
       IN  IF P.map[k] = 0 THEN like(of(P.fr, k)) ELSE \E j \in Origins(U, P.map[k]) : like(of(U.fr, j))

Step(ev, C, S) ==
  LET dt == ev.t \ominus S.t
      want == StepTime(C, S)
      rem == C.total \ominus S.t
      eps == R("1e-12") \otimes C.total
      fdt == F(NearTo(dt, want, R("1e-7"), R("1e-11") \otimes C.total), IF C.auto THEN "dt-auto" ELSE "dt-fixed", dt, want)
          \o F(dt \succ 0 /\ rem \succ RNeg(eps) /\ ev.t \preceq (C.total \oplus eps), "time", <<S.t, ev.t>>, C.total)
      X == Successor(C, S, dt, ev)
  IN  IF ~Has(X, "U") THEN [fs |-> fdt \o X.heun \o F(~X.must, "noerror", "a step", "an error"), S |-> [lost |-> TRUE] @@ S]
      ELSE
      LET P == Managed(C, X.U, X.e)
          N1 == Len(ev.g)
          dmax == MaxAbs(P.dens)
          same == N1 = Len(P.lb)
          fbin == F(Increasing(ev.g), "order", ev.g, "increasing")
               \o F(same \/ P.unsure, "bins", ev.g, P.lb)
               \o F(IF C.bounds = <<>> THEN TRUE ELSE \A k \in 1..N1 :
                       ev.g[k] \succeq (C.bounds[1] \otimes (One \ominus R("1e-9"))) /\ ev.g[k] \preceq (C.bounds[2] \otimes (One \oplus R("1e-9"))),
                    "bounds", ev.g, C.bounds)
          moved == IF ~same \/ (P.unsure /\ ~P.met) THEN <<>>
                   ELSE F(AllNear(ev.g, P.lb, Tol, Zero), IF Len(P.map) = NB(S) /\ \A k \in 1..NB(S) : P.map[k] = k THEN "lb" ELSE "binlb", ev.g, P.lb)
                     \o F(AllNear(ev.d, P.dens, R("1e-7"), Tiny), "dens", ev.d, P.dens)
                     \o F(FracOk(C, ev, X.U, P), "frac", ev.s, P.fr)
                     \o F(ev.ne.kind # "EmptyDistribution" \/ AllNear(<<ev.ne.lo, ev.ne.hi>>, P.edges, Tol, Zero),
                          "ne", <<ev.ne.lo, ev.ne.hi>>, P.edges)
          fne == CheckNe(ev, AllZero(X.U.dens)) \o CheckSum(ev) \o CheckLabels(C, ev)
          ls == AllLabels(C)
          R0 == Renewed(C, ev, ev.g)
          Rset == IF Len(ls) = 0 THEN 1..N1 ELSE R0[ls[1]]
          stale == (1..N1) \ Rset
          fcall == FlatSeq([k \in 1..Len(ls) |->
                     IF HasCall(ev, ls[k])
                     THEN CallOk(C, ls[k], LastCall(ev, ls[k]), ev.g, Tup([j \in 1..N1 |-> Upper(ev.g[j])]), ev.d, ev.s, R("1e-12"))
                     ELSE <<>>])
          ffresh == F(/\ \A k \in 1..Len(ls) : R0[ls[k]] = Rset
                      /\ C.lazy \/ stale = {}
                      /\ same => \A k \in stale : P.map[k] # 0 /\ ~REq(P.ub[k], 0),
                      "fresh", stale, "only bins whose rates may still be used")
          lost == \/ ~same \/ ffresh # <<>>
                  \/ \E k \in 1..Len(fcall) : fcall[k][1] = "call" 
          renew(l, new, old) ==
            LET c == IF HasCall(ev, l) THEN LastCall(ev, l) ELSE <<>>
                p == IF HasCall(ev, l) THEN Positions(ev.g, LbOf(C, l, c), R("1e-12")) ELSE <<>>
            IN  Tup([k \in 1..N1 |-> IF k \in Rset THEN new[CHOOSE j \in 1..Len(p) : p[j] = k] ELSE old[P.map[k]]])
          S1 == [t |-> ev.t, lb |-> ev.g, dens |-> ev.d, fr |-> ev.s, ne |-> Snapped(P.ne, ev),
                 ub |-> Tup([k \in 1..N1 |-> IF k \in Rset THEN Upper(ev.g[k]) ELSE P.ub[k]]),
                 lo |-> [l \in Labels(C.en) |-> renew(l, LoOf(C, l, LastCall(ev, l)), S.lo[l])],
                 hi |-> [l \in Labels(C.en) |-> renew(l, HiOf(LastCall(ev, l)), S.hi[l])],
                 rel |-> [l \in Labels(C.rel) |-> renew(l, LastCall(ev, l).r, S.rel[l])],
                 ab |-> [l \in Labels(C.ab) |-> renew(l, LastCall(ev, l).r, S.ab[l])],
                 last |-> ev] @@ S
          mt == MaxTimes(C, S1, Tup(Grouped(C, S1, S1.lo, S1.hi)))
          frate == IF lost THEN <<>> ELSE
                   F(/\ \A k \in 1..Len(C.en) : Has(ev.en, C.en[k]) => AllNear(ev.en[C.en[k]], S1.lo[C.en[k]], Tol, Zero)
                     /\ \A k \in 1..Len(C.rel) : Has(ev.rel, C.rel[k]) => AllNear(ev.rel[C.rel[k]], S1.rel[C.rel[k]], Tol, Zero)
                     /\ \A k \in 1..Len(C.ab) : Has(ev.ab, C.ab[k]) => AllNear(ev.ab[C.ab[k]], S1.ab[C.ab[k]], Tol, Zero),
                     "rates", <<ev.en, ev.rel, ev.ab>>, "the rates last computed for each bin")
      IN  [fs |-> fdt \o X.heun \o F(~X.must, "noerror", "a step", "an error") \o fbin \o moved \o fne \o fcall \o ffresh \o frate,
           S |-> IF lost THEN [lost |-> TRUE, last |-> ev] @@ S
                 ELSE IF ~C.auto THEN S1
                 ELSE [left |-> Tup([k \in 1..N1 |-> IF k \in Rset THEN mt[k] ELSE S.left[P.map[k]] \ominus dt])] @@ S1]

\* ---------------------------------------------------------------- the returned result
Reported(S, C) ==
  IF Has(S, "last") THEN [t |-> S.last.t, g |-> S.last.g, d |-> S.last.d, s |-> S.last.s,
                          en |-> S.last.en, rel |-> S.last.rel, ab |-> S.last.ab]
  ELSE [t |-> S.t, g |-> S.lb, d |-> S.dens, s |-> S.fr, en |-> S.lo, rel |-> S.rel, ab |-> S.ab]
TableNear(a, b) == DOMAIN a = DOMAIN b /\ \A l \in DOMAIN a : AllNear(a[l], b[l], R("1e-12"), Zero)
SameReport(a, b) ==
  /\ REq(a.t, b.t) /\ AllNear(a.g, b.g, R("1e-12"), Zero) /\ AllNear(a.d, b.d, R("1e-12"), Zero)
  /\ RowsNear(a.s, b.s, R("1e-12"), Zero)
  /\ TableNear(a.en, b.en) /\ TableNear(a.rel, b.rel) /\ TableNear(a.ab, b.ab)
WithParticles(a) ==
  LET idx == SelectSeq([k \in 1..Len(a.g) |-> k], LAMBDA k : a.d[k] \succ 0) p(s) == Pick(s, idx) IN
  [t |-> a.t, g |-> p(a.g), d |-> p(a.d), s |-> Tup([x \in 1..Len(a.s) |-> p(a.s[x])]),
   en |-> [l \in DOMAIN a.en |-> p(a.en[l])], rel |-> [l \in DOMAIN a.rel |-> p(a.rel[l])],
   ab |-> [l \in DOMAIN a.ab |-> p(a.ab[l])]]
End(ev, C, S) ==
  LET r == Reported(S, C)
      got == [t |-> ev.t, g |-> ev.g, d |-> ev.d, s |-> ev.s, en |-> ev.en, rel |-> ev.rel, ab |-> ev.ab]
  IN  F(NearTo(ev.t, RMax(C.total, Zero), R("1e-12"), Zero), "final", ev.t, C.total)
      \o F(SameReport(got, r), "end", got, r)
      \o (IF Has(ev, "nz") THEN F(SameReport(ev.nz, WithParticles(got)), "end", ev.nz, WithParticles(got)) ELSE <<>>)
      \* what was given to earlier callbacks is still what it was
      \o F(\A k \in 1..Len(ev.hist) : ev.hist[k], "history", ev.hist, "unchanged")

\* ---------------------------------------------------------------- an error
Raised(ev, C, S) ==
  LET X == Successor(C, S, StepTime(C, S), ev)
      odd == IF ~Has(X, "U") THEN FALSE
             ELSE LET Q == Sorted(X.U) IN
                  \/ Len(Q.lb) = 1
                  \/ Len(Kept(C, Separated(C, Deduplicated(Q, NewDist(Q)), NewDist(Q))).lb) = 0
  IN  X.heun \o F(X.may \/ odd, "error", ev.err, "a step")

Judge(k, ev) ==
  CASE ev.op = "evo" /\ (~st.lost \/ Has(ev, "ne")) -> LET s == Start(ev, st) IN [bad |-> Tell(k, ev, s.fs), S |-> s.S, C |-> ev.C]
    [] ev.op = "reset" -> [bad |-> 0, S |-> [lost |-> TRUE], C |-> <<>>]
    [] st.lost -> [bad |-> 0, S |-> st, C |-> cfg]
    [] ev.op = "step" -> LET s == Step(ev, cfg, st) IN [bad |-> Tell(k, ev, s.fs), S |-> s.S, C |-> cfg]
    [] ev.op = "end" -> [bad |-> Tell(k, ev, End(ev, cfg, st)), S |-> st, C |-> cfg]
    [] ev.op = "fail" -> [bad |-> Tell(k, ev, Raised(ev, cfg, st)), S |-> [lost |-> TRUE] @@ st, C |-> cfg]
    [] OTHER -> [bad |-> 0, S |-> st, C |-> cfg]

Init == i = 1 /\ st = [lost |-> TRUE] /\ cfg = <<>> /\ nobs = 0 /\ nbad = 0
Next ==
  /\ i <= N
  /\ \E r \in {Judge(i, Trace[i])} :
       /\ nbad' = nbad + r.bad
       /\ st' = r.S
       /\ cfg' = r.C
  /\ nobs' = nobs + (IF Trace[i].op \in {"step", "end", "fail"} /\ ~st.lost THEN 1 ELSE 0)
  /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Report == (i = N + 1) => PrintT(<<"VERDICT", N, nobs, nbad>>)
=============================================================================
