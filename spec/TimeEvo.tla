------------------------------- MODULE TimeEvo -------------------------------
(* Time evolution of the particle content of a region.                           *)
(*                                                                               *)
(* C  configuration: groups (sequence of sequences of labels), families of       *)
(*    labels, step mode, limits, bounds ...                                      *)
(* S  state: t, lb, ub (narrow bins), dens, fr (one row per group), the rates    *)
(*    last computed for every bin (en: both bounds, rel, ab) and left, the time   *)
(*    for which the rates of a bin may still be used (automatic steps).          *)
(* The operators below give the successor of a state for a step of length dt;    *)
(* what user functions return is read from the trace.                            *)
EXTENDS Expect

BinSize == R("1e-4")
Upper(g) == g \otimes (One \oplus BinSize)
Inf == R("inf")
NB(S) == Len(S.lb)
Labels(s) == {s[j] : j \in 1..Len(s)}
Row(f(_), N) == Tup([k \in 1..N |-> f(k)])
Zs(N) == Tup([k \in 1..N |-> Zero])
MinOf(s) == LET RECURSIVE m(_, _)
                m(k, acc) == IF k > Len(s) THEN acc ELSE m(k + 1, RMin(acc, s[k]))
            IN  m(1, Inf)
AllZero(s) == \A k \in 1..Len(s) : REq(s[k], 0)
AnyZero(s) == \E k \in 1..Len(s) : REq(s[k], 0)
SameSeq(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : REq(a[k], b[k])

\* ------------------------------------------------------------ initial state
\* lower bounds: the given ones, or a logarithmic grid over the range of the
\* distribution cut by the bounds
InitialBins(C, ne) ==
  IF C.gamma # <<>> THEN Map(C.gamma, LAMBDA x : ToReal(x))
  ELSE LET lo == IF C.bounds = <<>> THEN ToReal(ne.gamma_min) ELSE RMax(ne.gamma_min, C.bounds[1])
           hi == IF C.bounds = <<>> THEN ToReal(ne.gamma_max) ELSE RMin(ne.gamma_max, C.bounds[2])
       IN  LogGrid(lo, hi, C.size)
NGroups(C) == Len(C.groups)
InitialFractions(C, N) ==
  IF C.split # <<>> THEN C.split
  ELSE Tup([i \in 1..NGroups(C) |-> Tup([k \in 1..N |-> IF i = 1 THEN One ELSE Zero])])
NoRates(labels, N) == [l \in Labels(labels) |-> Zs(N)]
InitialState(C, ne) ==
  LET lb == InitialBins(C, ne) N == Len(lb) IN
  [t |-> Zero, lb |-> lb, ub |-> Tup([k \in 1..N |-> Upper(lb[k])]),
   dens |-> DensArr(ne, lb), fr |-> InitialFractions(C, N),
   lo |-> NoRates(C.en, N), hi |-> NoRates(C.en, N), rel |-> NoRates(C.rel, N), ab |-> NoRates(C.ab, N),
   left |-> Zs(N), ne |-> ne, lost |-> FALSE]

\* ------------------------------------------------------------ rates per group
Mine(C, i, labels) == SelectSeq(C.groups[i], LAMBDA l : l \in Labels(labels))
GSum(ls, tbl, N) == Tup([k \in 1..N |-> RSum(Tup([m \in 1..Len(ls) |-> tbl[ls[m]][k]]))])
Grouped(C, S, lo, hi) ==
  LET N == NB(S) IN
  Tup([i \in 1..NGroups(C) |->
    LET e == Mine(C, i, C.en) r == Mine(C, i, C.rel) a == Mine(C, i, C.ab) IN
    [lo |-> GSum(e, lo, N), hi |-> GSum(e, hi, N), rel |-> GSum(r, S.rel, N), ab |-> GSum(a, S.ab, N),
     d |-> Tup([k \in 1..N |-> S.dens[k] \otimes S.fr[i][k]])]])

\* ------------------------------------------------------------ allowed times
\* longest time for which bin k may be moved by the rates of one group
GroupTime(C, S, G, k) ==
  LET e(g, f) == IF REq(f, 0) THEN Inf ELSE (C.thrE \otimes (g \otimes mec2)) \oslash RAbs(f)
      df == G.hi[k] \ominus G.lo[k]
      xf == ((S.ub[k] \ominus S.lb[k]) \otimes mec2) \oslash df
      t2 == IF REq(df, 0) THEN Inf
            ELSE IF xf \succ 0 THEN xf \otimes C.thrD
            ELSE (RNeg(xf) \otimes C.thrD) \oslash (One \oplus C.thrD)
      t3 == IF G.rel[k] \prec 0 THEN RNeg(Half) \oslash G.rel[k] ELSE Inf
      t4 == IF REq(G.ab[k], 0) THEN Inf ELSE C.maxInj \oslash RAbs(G.ab[k])
  IN  RMin(RMin(RMin(e(S.lb[k], G.lo[k]), e(S.ub[k], G.hi[k])), t2), RMin(t3, t4))
MaxTimes(C, S, Gs) ==
  Tup([k \in 1..NB(S) |-> MinOf(Tup([i \in 1..Len(Gs) |-> GroupTime(C, S, Gs[i], k)]))])

\* ------------------------------------------------------------ one update
\* group moved for a time dt
Moved(S, G, dt) ==
  LET N == NB(S)
      lo == Tup([k \in 1..N |-> S.lb[k] \oplus ((G.lo[k] \otimes dt) \oslash mec2)])
      hi == Tup([k \in 1..N |-> S.ub[k] \oplus ((G.hi[k] \otimes dt) \oslash mec2)])
      d == Tup([k \in 1..N |->
             (G.d[k] \otimes ((S.ub[k] \ominus S.lb[k]) \oslash (hi[k] \ominus lo[k])))
             \oplus (dt \otimes ((G.d[k] \otimes G.rel[k]) \oplus G.ab[k]))])
  IN  [lo |-> lo, hi |-> hi, d |-> d]
\* how surely a moved group is impossible: 2 surely, 1 within rounding, 0 not
Impossible(S, G, M, dt) ==
  LET N == NB(S)
      small == R("1e-9")
      v(k) ==
        LET w == M.hi[k] \ominus M.lo[k]
            w0 == S.ub[k] \ominus S.lb[k]
            ds == G.d[k] \oplus RAbs(dt \otimes G.ab[k]) IN
        IF M.lo[k] \prec (RNeg(small) \otimes S.lb[k]) \/ M.hi[k] \prec (RNeg(small) \otimes S.lb[k])
           \/ w \prec (RNeg(small) \otimes w0)
           \/ M.d[k] \prec (RNeg(small) \otimes ds)
        THEN 2
        ELSE IF M.lo[k] \prec (small \otimes S.lb[k]) \/ M.hi[k] \prec (small \otimes S.lb[k])
           \/ w \prec (small \otimes w0) \/ M.d[k] \prec 0
        THEN 1 ELSE 0
  IN  IF \E k \in 1..N : v(k) = 2 THEN 2 ELSE IF \E k \in 1..N : v(k) = 1 THEN 1 ELSE 0
Increasing(s) == \A k \in 1..(Len(s) - 1) : s[k] \prec s[k+1]
Nonzero(s) == Len(SelectSeq(s, LAMBDA x : ~REq(x, 0)))
AsDist(lb, d) ==
  LET kn == [kind |-> "InterpolatedDistribution", mass |-> "e", rule |-> "trapz", interp |-> "pchip",
             norm |-> One, gin |-> lb, nin |-> d]
      k == Knots(kn) IN
  [gamma_min |-> k.lo, gamma_max |-> k.hi] @@ kn

\* groups put on the bins of the first one
Mixed(Ms, fr) ==
  LET N == Len(Ms[1].lo)
      on(i) == IF i = 1 \/ AllZero(Ms[i].d)
                  \/ (SameSeq(Ms[i].lo, Ms[1].lo) /\ SameSeq(Ms[i].hi, Ms[1].hi)) THEN Ms[i].d
               ELSE DensArr(AsDist(Ms[i].lo, Ms[i].d), Ms[1].lo)
      ds == Tup([i \in 1..Len(Ms) |-> on(i)])
      tot == Tup([k \in 1..N |-> RSum(Tup([i \in 1..Len(Ms) |-> ds[i][k]]))])
  IN  [lb |-> Ms[1].lo, ub |-> Ms[1].hi, dens |-> tot,
       fr |-> Tup([i \in 1..Len(Ms) |->
                Tup([k \in 1..N |-> IF REq(tot[k], 0) THEN fr[i][k] ELSE ds[i][k] \oslash tot[k]])])]
\* a group that cannot be interpolated (its bins crossed, or a single one holds particles)
CannotMix(Ms) ==
  \E i \in 2..Len(Ms) :
     /\ ~AllZero(Ms[i].d)
     /\ ~(SameSeq(Ms[i].lo, Ms[1].lo) /\ SameSeq(Ms[i].hi, Ms[1].hi))
     /\ (~Increasing(Ms[i].lo) \/ Nonzero(Ms[i].d) < 2)

\* ------------------------------------------------------------ sorting and merging
SortIdx(s) ==
  LET RECURSIVE ins(_, _)
      ins(k, acc) ==
        IF k > Len(s) THEN acc
        ELSE LET RECURSIVE place(_)
                 place(p) == IF p = 0 \/ s[acc[p]] \preceq s[k] THEN SubSeq(acc, 1, p) \o <<k>> \o SubSeq(acc, p + 1, Len(acc))
                             ELSE place(p - 1)
             IN  ins(k + 1, place(Len(acc)))
  IN  ins(1, <<>>)
Pick(s, idx) == Tup([k \in 1..Len(idx) |-> s[idx[k]]])
PickU(s, idx) == Tup([k \in 1..Len(idx) |-> IF idx[k] = 0 THEN Zero ELSE s[idx[k]]])
\* consecutive runs: starts of the runs for which Join(k) (k joined to its predecessor) is false
Starts(N, Join(_)) == SelectSeq([k \in 1..N |-> k], LAMBDA k : k = 1 \/ ~Join(k))
RunEnd(starts, j, N) == IF j = Len(starts) THEN N ELSE starts[j + 1] - 1
Mean(s, a, b) == RSum(Tup([k \in 1..(b - a + 1) |-> s[a + k - 1]])) \oslash (b - a + 1)
GeoMean(s, a, b) == IF a = b THEN s[a] ELSE RExp(Mean(Tup([k \in 1..Len(s) |-> RLn(s[k])]), a, b))

DupGap == R("4e-15")
Dup(s, k) == ((s[k] \ominus s[k-1]) \oslash s[k]) \preceq DupGap
\* is the decision which bins coincide, or are too close, beyond rounding?
Ambiguous(C, s) ==
  \E k \in 2..Len(s) :
    LET rel == (s[k] \ominus s[k-1]) \oslash s[k]
        gap == RLog10(s[k]) \ominus RLog10(s[k-1]) IN
    \/ rel \preceq R("1e-13")
    \/ C.merge # <<>> /\ RAbs(gap \ominus C.merge[1]) \preceq R("1e-11")

\* sorted, with coinciding bins merged: bins, mean densities, indices of origin
Sorted(U) ==
  LET o == SortIdx(U.lb)
      s == Pick(U.lb, o) d == Pick(U.dens, o) N == Len(o)
      st == Starts(N, LAMBDA k : Dup(s, k))
      none == Len(st) = N
  IN  [lb |-> Tup([j \in 1..Len(st) |-> GeoMean(s, st[j], RunEnd(st, j, N))]),
       ub |-> IF none THEN Pick(U.ub, o) ELSE Zs(Len(st)),
       dens |-> Tup([j \in 1..Len(st) |-> Mean(d, st[j], RunEnd(st, j, N))]),
       merged |-> Tup([j \in 1..Len(st) |-> RunEnd(st, j, N) > st[j]]),
       map |-> Tup([j \in 1..Len(st) |-> o[st[j]]]),
       amb |-> s]
\* the distribution the region carries after the step
NewDist(Q) ==
  IF AllZero(Q.dens)
  THEN [kind |-> "EmptyDistribution", mass |-> "e", rule |-> "trapz",
        gamma_min |-> Q.lb[1], gamma_max |-> Q.lb[Len(Q.lb)]]
  ELSE AsDist(Q.lb, Q.dens)
CannotCarry(Q) == ~AllZero(Q.dens) /\ Nonzero(Q.dens) < 2

Sub(F, idx) == [lb |-> Pick(F.lb, idx), ub |-> Pick(F.ub, idx), dens |-> Pick(F.dens, idx), map |-> Pick(F.map, idx)]
\* coinciding bins take the value of the distribution
Deduplicated(Q, ne) ==
  [dens |-> Tup([k \in 1..Len(Q.lb) |-> IF Q.merged[k] THEN Dens(ne, Q.lb[k]) ELSE Q.dens[k]])] @@ Q
\* bins closer than the minimum separation, first and last gap excepted
Separated(C, F, ne) ==
  LET N == Len(F.lb)
      close(k) == /\ k # 2 /\ k # N
                  /\ (RLog10(F.lb[k]) \ominus RLog10(F.lb[k-1])) \prec C.merge[1]
      st == Starts(N, close)
      j2(j) == RunEnd(st, j, N)
      lb == Tup([j \in 1..Len(st) |-> GeoMean(F.lb, st[j], j2(j))])
  IN  IF C.merge = <<>> \/ N < 2 \/ Len(st) = N
      THEN [lb |-> F.lb, ub |-> F.ub, dens |-> F.dens, map |-> F.map]
      ELSE [lb |-> lb,
            ub |-> Tup([j \in 1..Len(st) |-> IF j2(j) > st[j] THEN Zero ELSE F.ub[st[j]]]),
            dens |-> Tup([j \in 1..Len(st) |-> IF j2(j) > st[j] THEN Dens(ne, lb[j]) ELSE F.dens[st[j]]]),
            map |-> Tup([j \in 1..Len(st) |-> F.map[st[j]]])]
\* ------------------------------------------------------------ bounds
OnEdge == R("1e-10")
Top(C) == C.bounds[2] \oslash (One \oplus BinSize)
Kept(C, F) ==
  IF C.bounds = <<>> THEN F
  ELSE Sub(F, SelectSeq([k \in 1..Len(F.lb) |-> k], LAMBDA k :
         F.lb[k] \succeq (C.bounds[1] \otimes (One \ominus OnEdge)) /\ F.lb[k] \preceq (Top(C) \otimes (One \oplus OnEdge))))
\* rate: total energy-change rate of the first group at the lower bound of the old bins
Extended(C, F, rate) ==
  IF C.bounds = <<>> \/ Len(F.lb) = 0 THEN F
  ELSE
  LET N == Len(F.lb)
      lowGap == RLog10(F.lb[1]) \ominus RLog10(C.bounds[1])
      topGap == RLog10(C.bounds[2]) \ominus RLog10(F.lb[N])
      low == lowGap \succeq C.creep /\ rate[F.map[1]] \succ 0
      top == topGap \succeq C.creep /\ rate[F.map[N]] \prec 0
      pre(x) == IF low THEN <<x>> ELSE <<>>
      suf(x) == IF top THEN <<x>> ELSE <<>>
  IN  [lb |-> pre(ToReal(C.bounds[1])) \o F.lb \o suf(Top(C)), ub |-> pre(Zero) \o F.ub \o suf(Zero),
       dens |-> pre(Zero) \o F.dens \o suf(Zero), map |-> pre(0) \o F.map \o suf(0)]
AmbiguousBounds(C, F) ==
  /\ C.bounds # <<>> /\ Len(F.lb) > 0
  /\ LET near(a, b, e) == RAbs((a \ominus b) \oslash b) \preceq e
         N == Len(F.lb) IN
     \/ \E k \in 1..N : \/ near(F.lb[k], C.bounds[1] \otimes (One \ominus OnEdge), R("1e-12"))
                        \/ near(F.lb[k], Top(C) \otimes (One \oplus OnEdge), R("1e-12"))
     \/ RAbs(RLog10(F.lb[1]) \ominus RLog10(C.bounds[1]) \ominus C.creep) \preceq R("1e-11")
     \/ RAbs(RLog10(C.bounds[2]) \ominus RLog10(F.lb[N]) \ominus C.creep) \preceq R("1e-11")

\* ------------------------------------------------------------ fractions after bin management
Refraction(C, fr, map) ==
  Tup([i \in 1..NGroups(C) |->
    Tup([k \in 1..Len(map) |-> IF map[k] = 0 THEN (IF i = 1 THEN One ELSE Zero) ELSE fr[i][map[k]]])])

\* bins of U that coincide with bin m but for the last digits: any of them may be the origin
Origins(U, m) == {j \in 1..Len(U.lb) : j = m \/ RAbs((U.lb[j] \ominus U.lb[m]) \oslash U.lb[m]) \preceq R("1e-13")}
\* ------------------------------------------------------------ the step
\* U: bins and densities moved; e: total rate of the first group at the lower bounds
Managed(C, U, e) ==
  LET Q == Sorted(U)
      ne == NewDist(Q)
      D == Deduplicated(Q, ne)
      P == Separated(C, D, ne)
      K == Kept(C, P)
      X == Extended(C, K, e)
  IN  [lb |-> X.lb, ub |-> X.ub, dens |-> X.dens, map |-> X.map, fr |-> Refraction(C, U.fr, X.map),
       ne |-> ne, edges |-> <<Q.lb[1], Q.lb[Len(Q.lb)]>>,
       unsure |-> Ambiguous(C, Q.amb) \/ Ambiguous(C, Q.lb) \/ AmbiguousBounds(C, P) \/ AmbiguousBounds(C, K),
       \* bins that coincide but for the last digit: whether they were merged shows in their number
       met |-> /\ \A x \in 1..NGroups(C) : Len(Mine(C, x, C.en)) = Len(C.en)
               /\ \A k \in 2..Len(Q.amb) : Dup(Q.amb, k) \/ ~Ambiguous(C, <<Q.amb[k-1], Q.amb[k]>>)
               /\ ~(Ambiguous(C, Q.lb) \/ AmbiguousBounds(C, P) \/ AmbiguousBounds(C, K))
               /\ C.bounds = <<>> \/ ~(Q.merged[1] \/ Q.merged[Len(Q.lb)])]
=============================================================================
