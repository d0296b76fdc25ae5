------------------------------ MODULE PlotTrace -------------------------------
(* Trace validation of plots and comparison helpers.  State: the objects of the   *)
(* session (env, as in SessionTrace) and the curves on every axes.  After every   *)
(* drawing the trace holds all curves that are on all axes.                       *)
EXTENDS Dispatch
CONSTANT TraceFile
Trace == JsonTrace(TraceFile)
N == Len(Trace)
VARIABLES i, env, fig, nobs, nbad
vars == <<i, env, fig, nobs, nbad>>

Tol == R("1e-9")
Near(a, b) == IsReal(a) /\ (CloseAbs(a, b, Tol, Zero) \/ (IsNaN(a) /\ IsNaN(b)))
AllNear(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : Near(s[k], t[k])
F(ok, clause, got, want) == IF ok THEN <<>> ELSE <<<<clause, ToString(got), ToString(want)>>>>

\* ---------------------------------------------------------------- curves
DefaultGrid == Logspace(Zero, R("8.0"), 200)
GridOf(ev) == IF ev.grid = "default" THEN DefaultGrid ELSE ev.x
RECURSIVE IPow(_, _)
IPow(x, n) == IF n = 0 THEN One ELSE x \otimes IPow(x, n - 1)
CurveOf(ev) ==
  IF ev.what = "sed" THEN [x |-> ev.x, y |-> ev.y]
  ELSE LET g == Tup(GridOf(ev)) n == DensArr(env[ev.of], g) IN
       [x |-> g, y |-> Tup([k \in 1..Len(g) |-> IPow(g[k], ev.pow) \otimes n[k]])]
SameCurve(c, w) == AllNear(c.x, w.x) /\ AllNear(c.y, w.y)
FirstOff(c, w) ==      \* for the report
  IF Len(c.x) # Len(w.x) \/ Len(c.y) # Len(w.y) THEN <<"points", Len(c.x), Len(c.y), Len(w.x)>>
  ELSE LET bad == {k \in 1..Len(w.x) : ~Near(c.x[k], w.x[k]) \/ ~Near(c.y[k], w.y[k])}
           k == CHOOSE k \in bad : \A m \in bad : k <= m
       IN  <<k, c.x[k], c.y[k], w.x[k], w.y[k]>>
Drawn(ev) ==
  LET want == [fig EXCEPT ![ev.ax] = Append(@, CurveOf(ev))]
      fs == IF ev.err # "" THEN F(FALSE, "error", ev.err, "a plot")
            ELSE F(ev.returned = ev.ax, "axes", ev.returned, ev.ax)
              \o F(ev.scales = <<"log", "log">>, "scales", ev.scales, "log")
              \o F(\A a \in DOMAIN want : Len(ev.fig[a]) = Len(want[a]), "curves", [a \in DOMAIN want |-> Len(ev.fig[a])], [a \in DOMAIN want |-> Len(want[a])])
              \o (IF \E a \in DOMAIN want : Len(ev.fig[a]) # Len(want[a]) THEN <<>>
                  ELSE LET bad == {<<a, k>> \in (DOMAIN want) \X (1..40) : k <= Len(want[a]) /\ ~SameCurve(ev.fig[a][k], want[a][k])} IN
                       IF bad = {} THEN <<>>
                       ELSE LET b == CHOOSE b \in bad : TRUE IN F(FALSE, "curve", <<b, FirstOff(ev.fig[b[1]][b[2]], want[b[1]][b[2]])>>, "the curve drawn then"))
              \o F(ev.name = ev.label, "label", ev.name, ev.label)
              \o F(ev.same, "modified", "the arguments or the object", "")
  IN  [fs |-> fs, fig |-> IF ev.err # "" THEN fig ELSE [a \in DOMAIN want |-> ev.fig[a]]]

\* ---------------------------------------------------------------- comparison plots
HasCurve(cs, x, y, name) == \E k \in 1..Len(cs) : AllNear(cs[k].x, x) /\ AllNear(cs[k].y, y) /\ (name = "" \/ cs[k].name = name)
Marked(cs, v) == \E k \in 1..Len(cs) : \A m \in 1..Len(cs[k].x) : Near(cs[k].x[m], v)
Compared(ev) ==
  IF ev.err # "" THEN F(FALSE, "error", ev.err, "a plot")
  ELSE F(ev.saved /\ ev.closed, "saved", <<ev.saved, ev.closed>>, "saved under the given name and closed")
    \o F(HasCurve(ev.up, ev.x, ev.ref, ev.refname), "reference", ev.up, <<ev.x, ev.ref>>)
    \o F(HasCurve(ev.up, ev.x, ev.comp, ev.compname), "comparison", ev.up, <<ev.x, ev.comp>>)
    \o F(IF ev.second = <<>> THEN TRUE ELSE HasCurve(ev.up, ev.second[1].x, ev.second[1].y, ev.second[1].name), "second", ev.up, ev.second)
    \o F(HasCurve(ev.down, ev.x, Tup([k \in 1..Len(ev.x) |-> (ev.comp[k] \oslash ev.ref[k]) \ominus One]), ""), "deviation", ev.down, "comparison / reference - 1")
    \o F(\A m \in 1..Len(ev.marks) : Marked(ev.up, ev.marks[m]) /\ Marked(ev.down, ev.marks[m]), "marks", ev.up, ev.marks)
    \o F(ev.title = ev.gtitle, "title", ev.gtitle, ev.title)
    \o F(IF ev.yrange = <<>> THEN TRUE ELSE AllNear(ev.ylim, ev.yrange), "range", ev.ylim, ev.yrange)
    \o F(ev.same, "modified", "the arguments", "")

\* ---------------------------------------------------------------- deviations
Compares(ev, k) == ev.range = <<>> \/ (ev.x[k] \succeq ev.range[1] /\ ev.x[k] \preceq ev.range[2])
Off(ev, k) == RAbs(ev.comp[k] \ominus ev.ref[k])
Within(ev, k, f) == /\ ~IsNaN(ev.comp[k])
                    /\ (Off(ev, k) \preceq ((ev.rtol \otimes RAbs(ev.ref[k])) \otimes f))
Deviated(ev) ==
  LET K == {k \in 1..Len(ev.x) : Compares(ev, k)}
      sure == \A k \in K : Within(ev, k, R("0.999999999"))
      open == \A k \in K : Within(ev, k, R("1.000000001"))
  IN  IF ev.err # "" THEN F(FALSE, "error", ev.err, "an answer")
      ELSE F(IF sure THEN ev.res ELSE open \/ ~ev.res, "deviation", ev.res, sure)
        \o F(ev.same, "modified", "the arguments", "")

Columns(ev) ==
  IF ev.err # "" THEN F(FALSE, "error", ev.err, "two columns")
  ELSE F(AllNear(ev.rx, ev.x) /\ AllNear(ev.ry, ev.y), "columns", <<ev.rx, ev.ry>>, <<ev.x, ev.y>>)

\* ---------------------------------------------------------------- working directories
\* what there is: <<directory, sub directory (0: none), 0 itself or 1 the file in it>>
Set(s) == {s[k] : k \in 1..Len(s)}
Cleaned(ev) ==
  LET want == {f \in Set(ev.before) : ~(f[1] = ev.dir /\ (ev.sub = 0 \/ f[2] = ev.sub))}
              \cup {<<ev.dir, 0, 0>>, <<ev.dir, ev.sub, 0>>} IN
  IF ev.err # "" THEN F(FALSE, "error", ev.err, "a directory")
  ELSE F(Set(ev.after) = want, "files", ev.after, want)
    \o F(ev.exists /\ ev.right, "directory", <<ev.exists, ev.right>>, "the new directory")
    \o F(ev.beyond = <<>>, "beyond", ev.beyond, "nothing outside the directory")

Judge(k, ev) ==
  LET D == IF ev.op = "draw" THEN Drawn(ev) ELSE [fs |-> <<>>, fig |-> fig]
      fs == CASE ev.op = "draw" -> D.fs
              [] ev.op = "compare" -> Compared(ev)
              [] ev.op = "deviation" -> Deviated(ev)
              [] ev.op = "columns" -> Columns(ev)
              [] ev.op = "clean" -> Cleaned(ev)
              [] ev.op = "new" /\ ev.err # "" -> F(FALSE, "construction", ev.err, "")
              [] OTHER -> <<>>
      told == \A j \in 1..Len(fs) : PrintT(<<"BAD", k, ev.id, ev.op, fs[j][1], j, fs[j][2], fs[j][3]>>)
  IN  [bad |-> IF told THEN Len(fs) ELSE Len(fs), fig |-> IF ev.op = "reset" THEN [a \in 1..ev.axes |-> <<>>] ELSE D.fig]

Init == i = 1 /\ env = <<>> /\ fig = <<>> /\ nobs = 0 /\ nbad = 0
Next == /\ i <= N
        /\ \E r \in {Judge(i, Trace[i])} : nbad' = nbad + r.bad /\ fig' = r.fig
        /\ env' = Apply(env, Trace[i])
        /\ nobs' = nobs + (IF Trace[i].op \in {"draw", "compare", "deviation", "columns", "clean"} THEN 1 ELSE 0)
        /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Report == (i = N + 1) => PrintT(<<"VERDICT", N, nobs, nbad>>)
=============================================================================
