------------------------------ MODULE LoadTrace ------------------------------
(* Trace validation of loaded flux points.  file: path -> rows written last; a       *)
(* loading must give every row of the file once, with its energy, flux and errors,   *)
(* the relative systematic error listed for its instrument, and the flag of the range.*)
EXTENDS Quad, FiniteSets

CONSTANTS TraceFile
Trace == JsonTrace(TraceFile)
N == Len(Trace)
VARIABLES i, file, nobs, nbad
vars == <<i, file, nobs, nbad>>

Tol == R("1e-9")
Eq(a, b) == IsReal(a) /\ CloseAbs(a, b, Tol, Zero)
Rel(ev, r) == IF r.inst \in DOMAIN ev.sys THEN ev.sys[r.inst] ELSE Zero
In(ev, r) == ev.lo \preceq r.e /\ r.e \preceq ev.hi
Quadrature(a, b) == RSqrt(Sq(a) \oplus Sq(b))
Has(rec, f) == f \in DOMAIN rec
F(ok, clause, got, want) == IF ok THEN <<>> ELSE <<<<clause, ToString(got), ToString(want)>>>>

Same(x, r) == Eq(x.e, r.e) /\ Eq(x.f, r.f) /\ (Has(x, "inst") => x.inst = r.inst)
Point(ev, x, r) ==
  LET syst == Rel(ev, r) \otimes r.f IN
  (IF ev.back = "sherpa"
   THEN F(Eq(x.err, (r.n \oplus r.p) \oslash 2), "errors", x, r) \o F(Eq(x.sys, syst), "systematics", x, r)
   ELSE F(Eq(x.n, Quadrature(r.n, syst)) /\ Eq(x.p, Quadrature(r.p, syst)), "systematics", x, r))
  \o F(x.in = In(ev, r), "range", x, <<r, ev.lo, ev.hi>>)
RECURSIVE Each(_, _, _)
Each(ev, rows, k) ==
  IF k > Len(rows) THEN <<>>
  ELSE LET r == rows[k] M == {m \in 1..Len(ev.out) : Same(ev.out[m], r)} IN
       (IF Cardinality(M) # 1 THEN F(FALSE, "points", M, r) ELSE Point(ev, ev.out[CHOOSE m \in M : TRUE], r))
       \o Each(ev, rows, k + 1)
Loaded(ev) ==
  LET rows == file[ev.path] IN
  IF ev.err # "" THEN F(FALSE, "error", ev.err, "")
  ELSE F(Len(ev.out) = Len(rows), "number", Len(ev.out), Len(rows))
       \o Each(ev, rows, 1)
       \o F(ev.same, "argument", "modified", "")
       \o (IF ev.back = "gammapy"
           THEN F(Len(ev.names) = Cardinality({rows[k].inst : k \in 1..Len(rows)}), "datasets", ev.names, "") ELSE <<>>)
Judge(k, ev) ==
  LET fs == IF ev.op = "load" THEN Loaded(ev) ELSE <<>>
      told == \A j \in 1..Len(fs) : PrintT(<<"BAD", k, ev.id, ev.op, fs[j][1], j, fs[j][2], fs[j][3]>>)
  IN  [bad |-> IF told THEN Len(fs) ELSE Len(fs)]

Init == i = 1 /\ file = <<>> /\ nobs = 0 /\ nbad = 0
Next == /\ i <= N
        /\ \E r \in {Judge(i, Trace[i])} : nbad' = nbad + r.bad
        /\ file' = IF Trace[i].op = "write" THEN (Trace[i].path :> Trace[i].rows) @@ file
                   ELSE IF Trace[i].op = "reset" THEN <<>> ELSE file
        /\ nobs' = nobs + (IF Trace[i].op = "load" THEN 1 ELSE 0)
        /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Report == (i = N + 1) => PrintT(<<"VERDICT", N, nobs, nbad>>)
=============================================================================
