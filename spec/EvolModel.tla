------------------------------- MODULE EvolModel -------------------------------
(* Design model of the time evolution: time accounting, lazy recalculation and the  *)
(* bookkeeping of bins through sorting, merging, removal and addition, on integer    *)
(* positions.  Spec side: a bin carries its own rate v, its fraction fr, the          *)
(* position x0 and the time `used` since its rate was computed.  Implementation side: *)
(* parallel sequences (left, rate, frac) carried along by index mappings.  Defect     *)
(* selects a wrong implementation, which the invariants must reject.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Total, Lo, Hi, Creep, Limit, Lazy, Defect, MaxBins

VARIABLES bins, left, rate, frac, elapsed, step, turn, ok
vars == <<bins, left, rate, frac, elapsed, step, turn, ok>>
d(n) == Defect = n

Rates == {-1, 0, 2}
Abs(x) == IF x < 0 THEN -x ELSE x
\* the longest time a rate may be used: no bin may move further than Limit
Allow(v) == IF v = 0 THEN Total + 1 ELSE IF Abs(v) >= Limit THEN 1 ELSE Limit \div Abs(v)
Dom(s) == 1..Len(s)
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : x >= y
Pick(s, m) == TLCEval([k \in Dom(m) |-> s[m[k]]])
\* the order of positions, equal positions in the order of the bins
RECURSIVE Order(_, _)
Order(xs, S) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE k \in S : \A i \in S : xs[k] < xs[i] \/ (xs[k] = xs[i] /\ k <= i)
                     IN <<m>> \o Order(xs, S \ {m})
Keep(s, P(_)) == TLCEval(SelectSeq([k \in Dom(s) |-> k], P))

Fresh(x, f) == [x |-> x, v |-> 0, x0 |-> x, used |-> 0, fr |-> f]
Starts == {<<3, 5>>, <<4, 6, 7>>}
Init == \E S \in Starts : \E V \in [Dom(S) -> Rates] :
  /\ bins = [k \in Dom(S) |-> [Fresh(S[k], k) EXCEPT !.v = V[k]]]
  /\ left = [k \in Dom(S) |-> 0]
  /\ rate = V
  /\ frac = [k \in Dom(S) |-> k]
  /\ elapsed = 0 /\ step = 0 /\ turn = "step" /\ ok = TRUE

\* ---- one step of the implementation
Chosen == TLCEval([k \in Dom(left) |-> IF left[k] = 0 \/ ~Lazy THEN Allow(rate[k]) ELSE left[k]])
Wanted == LET T == {Chosen[k] : k \in Dom(left)} IN IF d("longest") THEN Most(T) ELSE Least(T)
StepTime == IF d("noclip") THEN Wanted ELSE IF Wanted > Total - elapsed THEN Total - elapsed ELSE Wanted

Plan ==
  LET dt == StepTime
         moved == TLCEval([k \in Dom(bins) |-> [bins[k] EXCEPT !.x = @ + rate[k] * dt, !.used = @ + dt]])
         m1 == TLCEval(Order([k \in Dom(moved) |-> moved[k].x], Dom(moved)))
         b1 == Pick(moved, m1)
         First(k) == k = 1 \/ b1[k-1].x # b1[k].x \/ d("nomerge")
         m2 == Keep(b1, First)
         Merged(k) == \E i \in Dom(b1) : i > m2[k] /\ b1[i].x = b1[m2[k]].x
         b2 == TLCEval([k \in Dom(m2) |-> b1[m2[k]]])
         In(k) == d("nobounds") \/ (b2[k].x >= Lo /\ b2[k].x <= Hi)
         m3 == Keep(b2, In)
         b3 == Pick(b2, m3)
         full == TLCEval([k \in Dom(m3) |-> m1[m2[m3[k]]]])
         seen == TLCEval([k \in Dom(m3) |-> Merged(m3[k])])
         r(k) == IF d("edge") THEN rate[IF k = 1 THEN 1 ELSE Len(rate)] ELSE rate[full[k]]
         low == TLCEval(Len(b3) > 0 /\ b3[1].x - Lo >= Creep /\ r(1) > 0)
         up == TLCEval(Len(b3) > 0 /\ Hi - b3[Len(b3)].x >= Creep /\ r(Len(b3)) < 0)
         b4 == TLCEval((IF low THEN <<Fresh(Lo, 0)>> ELSE <<>>) \o b3 \o (IF up THEN <<Fresh(Hi, 0)>> ELSE <<>>))
         map == TLCEval((IF low THEN <<0>> ELSE <<>>) \o full \o (IF up THEN <<0>> ELSE <<>>))
         new == TLCEval((IF low THEN <<TRUE>> ELSE <<>>) \o seen \o (IF up THEN <<TRUE>> ELSE <<>>))
         At(s, k, z) == IF map[k] = 0 THEN z ELSE s[map[k]]
         keptPlace(s, k, z) == IF k \in Dom(s) THEN s[k] ELSE z
         rest == TLCEval([k \in Dom(left) |-> Chosen[k] - dt])
         l1 == TLCEval([k \in Dom(b4) |-> IF new[k] /\ ~d("keepleft") THEN 0
                                  ELSE IF d("leftplace") THEN keptPlace(rest, k, 0) ELSE At(rest, k, 0)])
         again == TLCEval([k \in Dom(b4) |-> ~Lazy \/ (IF d("never") THEN l1[k] < 0 ELSE l1[k] < dt)])
  IN [dt |-> dt, b4 |-> b4, again |-> again, l1 |-> l1,
      rate |-> TLCEval([k \in Dom(b4) |-> IF d("rateplace") THEN keptPlace(rate, k, 0) ELSE At(rate, k, 0)]),
      frac |-> TLCEval([k \in Dom(b4) |-> IF d("fracplace") THEN keptPlace(frac, k, 0) ELSE At(frac, k, 0)]),
      ok |-> /\ \A k \in Dom(moved) : moved[k].used <= Allow(moved[k].v) /\ Abs(moved[k].x - moved[k].x0) <= Limit
             /\ \A k \in Dom(m3) : Merged(m3[k]) => again[IF low THEN k + 1 ELSE k]
             /\ Len(b3) > 0 => /\ (b3[1].x - Lo >= Creep /\ moved[full[1]].v > 0) <=> low
                               /\ (Hi - b3[Len(b3)].x >= Creep /\ moved[full[Len(b3)]].v < 0) <=> up]

Step ==
  /\ turn = "step" /\ elapsed < Total /\ Len(bins) > 0
  /\ \E p \in {Plan} :
       /\ p.dt > 0
       /\ step' = p.dt /\ elapsed' = elapsed + p.dt
       /\ \E V \in {W \in [Dom(p.b4) -> Rates \cup {0}] : \A k \in Dom(p.b4) : ~p.again[k] => W[k] = p.rate[k]} :
            /\ rate' = V
            /\ bins' = [k \in Dom(p.b4) |-> IF p.again[k] THEN [p.b4[k] EXCEPT !.v = V[k], !.x0 = p.b4[k].x, !.used = 0]
                                             ELSE p.b4[k]]
       /\ left' = [k \in Dom(p.b4) |-> IF p.again[k] THEN 0 ELSE p.l1[k]]
       /\ frac' = p.frac
       /\ ok' = p.ok
       /\ turn' = "step"

End == turn = "step" /\ (elapsed >= Total \/ Len(bins) = 0) /\ turn' = "end" /\ UNCHANGED <<bins, left, rate, frac, elapsed, step, ok>>
Next == Step \/ End \/ (turn = "end" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Step) /\ WF_vars(End)

\* ---- what must hold
Limits == ok                                   \* no rate used longer than it may be; boundary bins as documented
TimeAccount == elapsed <= Total /\ (turn = "end" /\ Len(bins) > 0 => elapsed = Total)
Ordered == \A k \in 1..Len(bins)-1 : bins[k].x < bins[k+1].x
Bounds == \A k \in Dom(bins) : elapsed = 0 \/ (bins[k].x >= Lo /\ bins[k].x <= Hi)
Together == \A k \in Dom(bins) : rate[k] = bins[k].v /\ (frac[k] = bins[k].fr)
Sized == Len(left) = Len(bins) /\ Len(rate) = Len(bins) /\ Len(frac) = Len(bins)
LeftTrue == \A k \in Dom(bins) : left[k] # 0 => left[k] + bins[k].used <= Allow(bins[k].v)
Ends == <>(turn = "end")
Small == Len(bins) <= MaxBins
=============================================================================
