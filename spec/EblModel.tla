------------------------------- MODULE EblModel -------------------------------
(* Design model of the table look-up: on every point of a fine mesh over a small   *)
(* table the interpolation is exact at the nodes, between the corner values,       *)
(* continuous across cells, and the answers to a list of queries do not depend on  *)
(* their order.  Defect selects wrong interpolations.                              *)
EXTENDS Ebl
CONSTANT Defect
VARIABLES q, hist
vars == <<q, hist>>

E == <<R("1"), R("3"), R("4"), R("10")>>
Z == <<R("0.1"), R("0.2"), R("0.5")>>
T == <<<<R("0.9"), R("0.7"), R("0.2")>>, <<R("0.8"), R("0.5"), R("0.1")>>,
       <<R("0.6"), R("0.3"), R("0.05")>>, <<R("0.1"), R("0.02"), R("0")>>>>
d(n) == Defect = n
EE(k) == R("1") \oplus (R("0.5") \otimes k)
ZZ(k) == R("0.1") \oplus (R("0.05") \otimes k)

Corner(i, j) == <<T[i][j], T[i][j+1], T[i+1][j], T[i+1][j+1]>>
Look(e, z, prev) ==
  LET i == Cell(E, e) j == Cell(Z, z) IN
  IF i = 0 \/ j = 0 THEN (IF d("clamp") THEN Zero ELSE R("nan"))
  ELSE LET we == Weight(E[i], E[i+1], e) wz == Weight(Z[j], Z[j+1], z) v == Corner(i, j) IN
       IF d("nearest") THEN v[1]
       ELSE IF d("swap") THEN Bilinear(v, wz, we)
       ELSE IF d("memory") /\ prev # <<>> THEN prev[1]
       ELSE Bilinear(v, we, wz)

\* the history holds queries; answers are computed along it
RECURSIVE Answers(_)
Answers(h) == IF h = <<>> THEN <<>>
              ELSE LET before == Answers(SubSeq(h, 1, Len(h) - 1)) x == h[Len(h)] IN
                   Append(before, Look(EE(x[1]), ZZ(x[2]), before))
Init == q = <<-1, -1>> /\ hist = <<>>
Next == \E k \in -1..19, l \in -1..9 :
          /\ Len(hist) < 2 /\ (hist # <<>> => hist[1][1] % 4 = 0)
          /\ q' = <<k, l>>
          /\ hist' = Append(hist, q')
Spec == Init /\ [][Next]_vars

Inside == q[1] \in 0..18 /\ q[2] \in 0..8
Last == LET a == Answers(hist) IN a[Len(a)]
Nodes == hist # <<>> => \A i \in 1..4, j \in 1..3 :
           CloseAbs(EE(q[1]), E[i], R("1e-12"), Zero) /\ CloseAbs(ZZ(q[2]), Z[j], R("1e-12"), Zero) =>
             CloseAbs(Last, T[i][j], R("1e-9"), R("1e-12"))
Bounded == hist # <<>> =>
  IF Inside
  THEN LET i == Cell(E, EE(q[1])) j == Cell(Z, RMin(ZZ(q[2]), R("0.5"))) v == Corner(i, j) IN
       /\ Last \preceq (RMax(RMax(v[1], v[2]), RMax(v[3], v[4])) \oplus R("1e-12"))
       /\ Last \succeq (RMin(RMin(v[1], v[2]), RMin(v[3], v[4])) \ominus R("1e-12"))
  ELSE (q[1] = -1 \/ q[1] = 19 \/ q[2] = -1 \/ q[2] = 9) => IsNaN(Last)
\* half-way between two nodes along one axis: the mean of the two
Linear == hist # <<>> /\ q[1] = 2 /\ q[2] = 2 =>
  CloseAbs(Last, Half \otimes (T[1][2] \oplus T[2][2]), R("1e-9"), Zero)
=============================================================================
