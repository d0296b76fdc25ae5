--------------------------------- MODULE Ebl ---------------------------------
(* Absorption on the extragalactic background light: bilinear interpolation of a   *)
(* table over energy (keV) and redshift, no number outside the table.              *)
EXTENDS Quad

\* 1-based index i with xs[i] <= x <= xs[i+1]; 0 outside
Cell(xs, x) ==
  IF x \prec xs[1] \/ x \succ xs[Len(xs)] THEN 0
  ELSE LET i == Bracket(xs, x) IN IF i = Len(xs) THEN i - 1 ELSE i
Weight(x0, x1, x) == (x \ominus x0) \oslash (x1 \ominus x0)
\* corners v = <<v(e0,z0), v(e0,z1), v(e1,z0), v(e1,z1)>>, weights in energy and redshift
Bilinear(v, we, wz) ==
  ((One \ominus we) \otimes (((One \ominus wz) \otimes v[1]) \oplus (wz \otimes v[2])))
  \oplus (we \otimes (((One \ominus wz) \otimes v[3]) \oplus (wz \otimes v[4])))
Spread(v) == RMax(RMax(v[1], v[2]), RMax(v[3], v[4])) \ominus RMin(RMin(v[1], v[2]), RMin(v[3], v[4]))

\* t: [e, z] axes of the table; q: [e, z, i, j, v]: a query with the cell the driver read
\* (i = 0 or j = 0 when it found the query outside)
EblAt(t, q) ==
  LET i == Cell(t.e, q.e) j == Cell(t.z, q.z) IN
  IF i # q.i \/ j # q.j THEN Assert(FALSE, <<"driver cell", i, j, q.i, q.j>>)
  ELSE IF i = 0 \/ j = 0 THEN R("nan")
  ELSE Bilinear(q.v, Weight(t.e[i], t.e[i+1], q.e), Weight(t.z[j], t.z[j+1], q.z))
\* energies of the table are single precision: the weight is known to about 1e-5
EblFloor(q) == IF q.i = 0 \/ q.j = 0 THEN R("1e-12") ELSE R("1e-12") \oplus (R("2e-5") \otimes Spread(q.v))
=============================================================================
