----------------------------- MODULE SessionTrace -----------------------------
(* Trace validation: replays a recorded session against the specification.       *)
(* Every recorded observation is compared with the value the specification        *)
(* expects in the specified state; failing clauses are printed and counted, and   *)
(* the run goes on (one divergence does not mask the next).                       *)
EXTENDS Dispatch

CONSTANT TraceFile
Trace == JsonTrace(TraceFile)
N == Len(Trace)

VARIABLES i, env, nobs, nbad
vars == <<i, env, nobs, nbad>>

Match(a, b, tol, floor) ==
  /\ IsReal(a)
  /\ \/ CloseAbs(a, b, tol, floor)
     \/ IsNaN(a) /\ IsNaN(b)

Fail(k, ev, clause, j, got, want) ==
  PrintT(<<"BAD", k, ev.id, ev.what, clause, j, ToString(got), ToString(want)>>)

\* number of failing clauses of an observation (each is printed)
Values(k, ev, ex) ==
  IF Len(ev.res) # Len(ex.v)
  THEN IF Fail(k, ev, "shape", 0, Len(ev.res), Len(ex.v)) THEN 1 ELSE 1
  ELSE LET all == {j \in 1..Len(ex.v) : ~Match(ev.res[j], ex.v[j], ex.tol, FloorOf(ex, j))}
           \* deviations identified as a recorded defect: exactly the defective value
           kn == IF Has(ex, "alt") THEN {j \in all : IsFin(ex.alt[j]) /\ Match(ev.res[j], ex.alt[j], ex.tol, FloorOf(ex, j))} ELSE {}
           bads == all \ kn
           j0 == CHOOSE j \in bads : \A m \in bads : j <= m
       IN  IF bads = {} THEN (IF kn = {} THEN 0 ELSE IF PrintT(<<"KNOWN", k, ex.finding>>) THEN 0 ELSE 0)
           ELSE IF Fail(k, ev, "value", j0, ev.res[j0], ex.v[j0]) THEN 1 ELSE 1
Unmodified(k, ev) ==
  IF ~Has(ev, "same") THEN 0
  ELSE LET bads == {j \in 1..Len(ev.same) : ev.same[j][2] # ev.same[j][3]}
           j0 == CHOOSE j \in bads : TRUE
       IN  IF bads = {} THEN 0
           ELSE IF Fail(k, ev, "modified:" \o ev.same[j0][1], j0, ev.same[j0][3], ev.same[j0][2]) THEN 1 ELSE 1
\* documented relations inside the result itself (see Dispatch)
Extra(k, ev, c, ex) ==
  LET bads == SelectSeq(Relations(c, ev, ex), LAMBDA r : ~r[2]) IN
  IF bads = <<>> THEN 0 ELSE IF Fail(k, ev, bads[1][1], 0, ev.res, "") THEN 1 ELSE 1

JudgeObs(k, ev) ==
  IF Has(ev, "refused")            \* a call the specification says must be refused
  THEN IF ev.err \in Tup2Set(ev.refused) THEN 0
       ELSE IF Fail(k, ev, "not-refused", 0, ev.err, ev.refused) THEN 1 ELSE 1
  ELSE IF ev.err # "" THEN IF Fail(k, ev, "error", 0, ev.err, "a value") THEN 1 ELSE 1
  ELSE LET ex == Expected(env, ev)
           a == Values(k, ev, ex)
       IN  a + (IF a = 0 THEN Extra(k, ev, env, ex) ELSE 0) + Unmodified(k, ev)
Judge(k, ev) ==
  CASE ev.op = "obs" -> JudgeObs(k, ev)
    [] ev.op = "new" /\ ev.err # "" ->
         IF PrintT(<<"BAD", k, ev.id, ev.cls, "construction", 0, ev.err, "">>) THEN 1 ELSE 1
    [] OTHER -> 0

Init == i = 1 /\ env = <<>> /\ nobs = 0 /\ nbad = 0
Next ==
  /\ i <= N
  /\ LET ev == Trace[i] IN
       /\ nbad' = nbad + Judge(i, ev)
       /\ nobs' = nobs + (IF ev.op = "obs" THEN 1 ELSE 0)
       /\ env' = Apply(env, ev)
  /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Report == (i = N + 1) => PrintT(<<"VERDICT", N, nobs, nbad>>)
=============================================================================
