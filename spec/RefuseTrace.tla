----------------------------- MODULE RefuseTrace ------------------------------
(* Trace validation of refusals: got is <<>> when the case was accepted, otherwise *)
(* the names of the classes of the error; a refusal leaves everything as it was.    *)
EXTENDS Integers, Sequences, FiniteSets, RealArith

CONSTANTS TraceFile
Cat == INSTANCE Refuse WITH Reach <- 0, Gen <- FALSE, Defect <- "none", c <- <<>>
Trace == JsonTrace(TraceFile)
N == Len(Trace)
VARIABLES i, nobs, nbad
vars == <<i, nobs, nbad>>

F(ok, clause, got, want) == IF ok THEN <<>> ELSE <<<<clause, ToString(got), ToString(want)>>>>
Got(ev) == {ev.got[k] : k \in 1..Len(ev.got)}
Known(x) == x.subject \in Cat!Subjects /\ DOMAIN x = Cat!Fields(x.subject) \cup {"subject"}
            /\ \A f \in Cat!Fields(x.subject) : x[f] \in Cat!Cats(x.subject, f)
Tried(ev) ==
  IF ~Known(ev.c) THEN F(FALSE, "case", ev.c, "")
  ELSE F((ev.got = <<>>) = Cat!Accepted(ev.c), IF ev.got = <<>> THEN "accepted" ELSE "refused", ev.got, Cat!Broken(ev.c))
       \o F(ev.got = <<>> \/ Cat!Accepted(ev.c) \/ Got(ev) \cap Cat!Kinds(ev.c) # {}, "kind", ev.got, <<Cat!Broken(ev.c), Cat!Kinds(ev.c)>>)
       \o F(ev.same, "changed", ev.c, "")
Judge(k, ev) ==
  LET fs == IF ev.op = "try" THEN Tried(ev) ELSE <<>>
      told == \A j \in 1..Len(fs) : PrintT(<<"BAD", k, ev.id, ev.op, fs[j][1], j, fs[j][2], fs[j][3], ToString(ev.c)>>)
  IN  [bad |-> IF told THEN Len(fs) ELSE Len(fs)]
Init == i = 1 /\ nobs = 0 /\ nbad = 0
Next == /\ i <= N
        /\ \E r \in {Judge(i, Trace[i])} : nbad' = nbad + r.bad
        /\ nobs' = nobs + (IF Trace[i].op = "try" THEN 1 ELSE 0)
        /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Report == (i = N + 1) => PrintT(<<"VERDICT", N, nobs, nbad>>)
=============================================================================
