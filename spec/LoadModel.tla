------------------------------ MODULE LoadModel -------------------------------
(* Loading of flux points: files are written (row by row) and rewritten, and loaded  *)
(* with a range and a dictionary of systematic errors.  What is loaded must be, for  *)
(* every row of the file as it is now, one point with the energy, flux and errors of *)
(* that row (its tag), the systematic error of its own instrument and the flag of    *)
(* the range.  The loading goes instrument by instrument, as a reader would.         *)
(* Defect selects a wrong reader.  Also the generator of histories (Gen).            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Inst,         \* instruments (a sequence: the order of groups)
          Ranks,        \* number of distinct energies
          Rows,         \* rows per file, at most
          Paths, Dicts, \* number of files and of dictionaries
          Loads, Defect, Gen, Depth
VARIABLES file,         \* path -> rows now in the file
          draft,        \* <<path, rows>> being written, or <<>>
          dict,         \* dictionary number -> instruments it lists, as the user holds it
          dict0,        \* as the user wrote it
          cache,        \* path -> rows remembered (by a wrong reader)
          job,          \* the loading under way, or <<>>
          result, count, hist,
          turn          \* what comes next, when generating
vars == <<file, draft, dict, dict0, cache, job, result, count, hist, turn>>
d(x) == Defect = x
InstSet == {Inst[k] : k \in DOMAIN Inst}
Row == [inst : InstSet, e : 1..Ranks]
None == "none"

Init == /\ file = [p \in 1..Paths |-> <<>>] /\ cache = file
        /\ draft = <<>> /\ job = <<>> /\ result = <<>> /\ count = 0 /\ hist = <<>>
        /\ dict \in [1..Dicts -> SUBSET InstSet]
        /\ dict0 = dict /\ turn = IF Gen THEN "write" ELSE "any"
Turn(k) == turn \in {k, "any"}
NextTurn == turn' \in IF Gen THEN {"write", "load"} ELSE {"any"}
Log(a) == hist' = IF Gen THEN Append(hist, a) ELSE hist
Idle == draft = <<>> /\ job = <<>>

Open(p, n) == /\ Idle /\ Turn("write") /\ count < Loads /\ draft' = <<p, <<>>, n>> /\ result' = <<>>
              /\ UNCHANGED <<file, dict, dict0, cache, job, count, hist, turn>>
Put(r) == /\ draft # <<>> /\ Len(draft[2]) < draft[3]
          /\ draft' = [draft EXCEPT ![2] = Append(@, r)]
          /\ UNCHANGED <<file, dict, dict0, cache, job, result, count, hist, turn>>
Save == /\ draft # <<>> /\ Len(draft[2]) = draft[3] /\ NextTurn
        /\ file' = [file EXCEPT ![draft[1]] = draft[2]]
        /\ draft' = <<>>
        /\ Log(<<"write", draft[1], draft[2]>>)
        /\ UNCHANGED <<dict, dict0, cache, job, result, count>>

Twice(rows) == \E i, k \in DOMAIN rows : i < k /\ rows[i] = rows[k]
\* Gammapy keeps one point per energy and instrument
Start(p, back, s, lo, hi) ==
  /\ Idle /\ Turn("load") /\ file[p] # <<>> /\ count < Loads /\ NextTurn
  /\ back = "gammapy" => ~Twice(file[p])
  /\ LET rows == IF d("cache") /\ cache[p] # <<>> THEN cache[p] ELSE file[p] IN
     /\ cache' = [cache EXCEPT ![p] = rows]
     /\ job' = IF Gen THEN <<>> ELSE [path |-> p, rows |-> rows, back |-> back, dict |-> s, lo |-> lo, hi |-> hi, group |-> 1, carry |-> None, out |-> <<>>]
  /\ result' = <<>>
  /\ Log(<<"load", p, back, s, dict0[s], lo, hi>>)
  /\ UNCHANGED <<file, draft, dict, dict0, count>>

\* rows of one instrument, ascending in energy; each keeps the number of its row (its values)
Of(rows, i) == SelectSeq([k \in 1..Len(rows) |-> [e |-> rows[k].e, tag |-> k, inst |-> rows[k].inst]], LAMBDA r : r.inst = i)
RECURSIVE Sorted(_)
Sorted(s) ==
  IF s = <<>> THEN <<>>
  ELSE LET k == CHOOSE k \in 1..Len(s) : \A m \in 1..Len(s) : s[k].e < s[m].e \/ (s[k].e = s[m].e /\ k <= m) IN
       <<s[k]>> \o Sorted(SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s)))
Group ==
  /\ job # <<>> /\ job.group <= Len(Inst)
  /\ LET i == Inst[job.group]
         raw == Of(job.rows, i)
         srt == IF job.back = "gammapy" \/ d("detached") THEN Sorted(raw) ELSE raw
         rows == IF d("detached") THEN [k \in 1..Len(raw) |-> [e |-> srt[k].e, tag |-> raw[k].tag, inst |-> i]] ELSE srt
         listed == i \in dict[job.dict]
         sys == IF listed THEN i
                ELSE IF d("carried") THEN job.carry
                ELSE IF d("any") /\ dict[job.dict] # {} THEN CHOOSE x \in dict[job.dict] : TRUE ELSE None
         in(r) == IF d("open") THEN job.lo < r.e /\ r.e < job.hi ELSE job.lo <= r.e /\ r.e <= job.hi
         pts == [k \in 1..Len(rows) |-> [inst |-> i, e |-> rows[k].e, tag |-> rows[k].tag, sys |-> sys, in |-> in(rows[k])]]
         kept == IF d("drop") THEN SelectSeq(pts, LAMBDA x : x.in) ELSE pts
     IN  /\ job' = [job EXCEPT !.group = @ + 1, !.carry = sys, !.out = IF d("last") /\ rows # <<>> THEN kept ELSE @ \o kept]
         /\ dict' = IF d("consume") /\ listed THEN [dict EXCEPT ![job.dict] = @ \ {i}] ELSE dict
  /\ UNCHANGED <<file, draft, dict0, cache, result, count, hist, turn>>
Finish == /\ job # <<>> /\ job.group > Len(Inst)
          /\ result' = [path |-> job.path, dict |-> job.dict, lo |-> job.lo, hi |-> job.hi, out |-> job.out]
          /\ job' = <<>> /\ count' = count + 1
          /\ UNCHANGED <<file, draft, dict, dict0, cache, hist, turn>>

\* ranges of ranks (0 and Ranks + 1: beyond every point)
Ranges == IF Gen THEN {<<0, Ranks + 1>>, <<1, Ranks>>, <<2, Ranks - 1>>, <<0, 2>>, <<3, Ranks + 1>>, <<3, 3>>, <<2, 4>>}
          ELSE {x \in (0..Ranks + 1) \X (0..Ranks + 1) : x[1] <= x[2]}
Back == {"sherpa", "gammapy"}
Going == \/ \E p \in 1..Paths, n \in 1..Rows : Open(p, n)
        \/ \E r \in Row : Put(r)
        \/ Save \/ Group \/ Finish
        \/ \E p \in 1..Paths, b \in Back, s \in 1..Dicts, w \in Ranges : Start(p, b, s, w[1], w[2])
Stop == Gen /\ Len(hist) = Depth /\ turn # "end" /\ turn' = "end"
        /\ UNCHANGED <<file, draft, dict, dict0, cache, job, result, count, hist>>
Next == (Len(hist) < Depth /\ Going) \/ Stop
Spec == Init /\ [][Next]_vars

Pts(s) == {s[k] : k \in 1..Len(s)}
\* every row of the file, once, as it is
Whole == result # <<>> =>
  LET rows == file[result.path] IN
  /\ Len(result.out) = Len(rows)
  /\ {x.tag : x \in Pts(result.out)} = 1..Len(rows)
  /\ \A x \in Pts(result.out) : rows[x.tag].e = x.e /\ rows[x.tag].inst = x.inst
Systematics == result # <<>> =>
  \A x \in Pts(result.out) : x.sys = IF x.inst \in dict0[result.dict] THEN x.inst ELSE None
Range == result # <<>> => \A x \in Pts(result.out) : x.in = (result.lo <= x.e /\ x.e <= result.hi)
Untouched == dict = dict0

Inst2 == <<"a", "b">>
Inst4 == <<"a", "b", "c", "d">>
Emit == (turn = "end") => PrintT(<<"BEH", hist>>)
===============================================================================
