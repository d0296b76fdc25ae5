------------------------------ MODULE GroupModel ------------------------------
(* Design model of subgroups in one evolution step: every group is compressed by its *)
(* own factor, loses and gains by its own processes; the implementation keeps the     *)
(* total and the groups' fractions (numerators over a common denominator).             *)
(* amount[g] is what the group must hold; total and part/den what is stored.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Groups, Steps, Heun, Defect
VARIABLES amount, total, part, den, n
vars == <<amount, total, part, den, n>>
d(x) == Defect = x

RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET g == CHOOSE g \in S : TRUE IN f[g] + Sum(f, S \ {g})
G == 1..Groups
Init == /\ n = 0 /\ den = 2
        /\ part \in {p \in [G -> 0..2] : Sum(p, G) = 2}
        /\ total \in {2, 4}
        /\ amount = [g \in G |-> (total * part[g]) \div den]

\* what the implementation reads as a group's density
Held(g, p, q) == (total * p[g]) \div q
\* one stage: compression c, injected i, from the densities h
Stage(h, c, i) == [g \in G |-> c[g] * h[g] + i[IF d("order") /\ g < Groups THEN g + 1 ELSE g]]
\* the factor of the second stage depends on what the first stage gives
Factor(c, a) == [g \in G |-> IF a[g] % 2 = 0 THEN c[g] ELSE 3 - c[g]]

Step == /\ n < Steps
        /\ \E c \in [G -> 1..2], i \in [G -> 0..1] :
             LET c2w == Factor(c, [g \in G |-> c[g] * amount[g] + i[g]])
                 true1 == [g \in G |-> c[g] * amount[g] + i[g]]
                 truth == IF Heun THEN [g \in G |-> c2w[g] * amount[g] + i[g]] ELSE true1
                 h == [g \in G |-> IF d("whole") THEN total ELSE Held(g, part, den)]
                 s1 == Stage(h, c, i)
                 t1 == Sum(s1, G)
                 h2 == [g \in G |-> IF d("twice") /\ t1 # 0 THEN (total * s1[g]) \div t1 ELSE h[g]]
                 s2 == IF Heun THEN Stage(h2, Factor(c, s1), i) ELSE s1
                 t2 == Sum(s2, G)
             IN /\ amount' = truth
                /\ total' = t2
                /\ IF t2 = 0 THEN UNCHANGED <<part, den>>
                   ELSE IF d("stay") THEN part' = part /\ den' = den
                   ELSE part' = s2 /\ den' = t2
        /\ n' = n + 1
Spec == Init /\ [][Step]_vars
Own == \A g \in G : Held(g, part, den) = amount[g]
Whole == total = Sum(amount, G)
Unit == Sum(part, G) = den
NonNeg == \A g \in G : part[g] >= 0
=============================================================================
