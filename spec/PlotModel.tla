------------------------------ MODULE PlotModel -------------------------------
(* A user's figures and files.  Objects change (ver), curves are drawn on axes    *)
(* the user chooses (0: the current axes) and stay as drawn; working directories  *)
(* are made anew, which empties them and nothing else.  `told` and `kept` are what *)
(* the user has asked for; curves and files what there is.  Defect selects a wrong *)
(* library.  Also the generator of histories (Gen).                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Axes, Dirs, Subs, Draws, Defect, Gen, Depth
VARIABLES cur, ver, curves, told, files, kept, made, count, hist
vars == <<cur, ver, curves, told, files, kept, made, count, hist>>
d(x) == Defect = x
Ax == 1..Axes
Places == (1..Dirs) \X (0..Subs)          \* <<directory, 0>> is the directory itself
Log(a) == hist' = IF Gen THEN Append(hist, a) ELSE hist
Going == IF Gen THEN Len(hist) < Depth ELSE count < Draws
On(a) == IF a = 0 THEN cur ELSE a

Init == /\ cur = 1 /\ ver = 1 /\ count = 0 /\ hist = <<>>
        /\ curves = [a \in Ax |-> <<>>] /\ told = curves
        /\ files \in IF Gen THEN {{}} ELSE SUBSET Places
        /\ kept = files /\ made = <<>>
Drawing == IF Gen THEN {"dist", "dist2", "sed"} ELSE {"dist"}
Grids == IF Gen THEN {"default", "array", "ints", "units"} ELSE {"array"}
Draw(w, a, g) ==
  LET c == <<w, ver>>
      at == IF d("current") THEN cur ELSE IF d("first") /\ a = 0 THEN 1 ELSE On(a)
  IN  /\ told' = [told EXCEPT ![On(a)] = Append(@, c)]
      /\ curves' = [curves EXCEPT ![at] = IF d("twice") /\ Len(@) > 0 THEN Append(Append(@, c), c)
                                          ELSE IF d("replace") THEN <<c>> ELSE Append(@, c)]
      /\ cur' = cur /\ count' = count + 1 /\ made' = <<>>
      /\ Log(<<"draw", w, a, g>>)
      /\ UNCHANGED <<ver, files, kept>>
Change(w, f, v) == /\ ver' = IF Gen THEN ver ELSE ver + 1
                   /\ ver < 3
                   /\ made' = <<>> /\ Log(<<"change", w, f, v>>)
                   /\ UNCHANGED <<cur, curves, told, files, kept, count>>
Select(a) == /\ cur # a /\ cur' = a /\ made' = <<>> /\ Log(<<"select", a>>)
             /\ UNCHANGED <<ver, curves, told, files, kept, count>>
Touch(p) == /\ files' = files \cup {p} /\ kept' = files' /\ made' = <<>> /\ Log(<<"touch", p[1], p[2]>>)
            /\ UNCHANGED <<cur, ver, curves, told, count>>
Under(p, m, s) == p[1] = m /\ (s = 0 \/ p[2] = s)
Clean(m, s, how) ==
  /\ made' = <<m, s>>
  /\ kept' = {p \in files : ~Under(p, m, s)}
  /\ files' = IF d("whole") THEN {p \in files : p[1] # m} ELSE IF d("keep") THEN files ELSE {p \in files : ~Under(p, m, s)}
  /\ count' = count + 1 /\ Log(<<"clean", m, s, how>>)
  /\ UNCHANGED <<cur, ver, curves, told>>
Other(x) == /\ Gen /\ Log(x) /\ UNCHANGED <<cur, ver, curves, told, files, kept, made, count>>
Next ==
  /\ Going
  /\ \/ \E w \in Drawing, a \in 0..Axes, g \in Grids : Draw(w, a, g)
     \/ \E w \in {"dist", "dist2"}, f \in 1..3, v \in 1..2 : (Gen \/ (w = "dist" /\ f = 1 /\ v = 1)) /\ Change(w, f, v)
     \/ \E a \in Ax : Select(a)
     \/ \E p \in Places : Touch(p)
     \/ \E p \in Places : Other(<<"mkdir", p[1], p[2]>>)
     \/ \E m \in 1..Dirs, s \in 0..Subs, how \in {"text", "path"} : (Gen \/ how = "text") /\ Clean(m, s, how)
     \/ \E k \in {"sed", "tau", "other"}, s \in BOOLEAN : Other(<<"compare", k, s>>)
     \/ \E r \in {"none", "inner", "same", "empty"}, t \in {"within", "above", "below", "edge", "zero", "nan"} :
          Other(<<"deviation", r, t>>)
     \/ \E n \in {1, 2, 5}, y \in BOOLEAN : Other(<<"columns", n, y>>)
Spec == Init /\ [][Next]_vars

Seen(a) == IF d("live") THEN [k \in DOMAIN curves[a] |-> <<curves[a][k][1], ver>>] ELSE curves[a]
Drawn == \A a \in Ax : Seen(a) = told[a]
Emptied == files = kept
Emit == (Gen /\ Len(hist) = Depth) => PrintT(<<"BEH", hist>>)
=============================================================================
