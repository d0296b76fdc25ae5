------------------------------- MODULE EvolGen -------------------------------
(* Configurations of time evolutions: what a user may combine, which combinations *)
(* are refused, and the order in which a session goes through them.  One choice   *)
(* per step; the finished session is printed and concretised by the driver.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Family, Gen
VARIABLE c      \* record of the choices made so far
vars == <<c>>

Fields == <<"energy", "mode", "method", "groups", "init", "bounds", "merge", "rel", "abs", "start", "form",
            "steps", "fail", "again">>
All ==
  [mode   |-> {"fixed", "auto", "lazy"},
   method |-> {"euler", "heun"},
   groups |-> {0, 1, 2, 3},
   init   |-> {"default", "explicit", "close", "split"},
   bounds |-> {"none", "limits", "inner", "wide"},
   merge  |-> {"none", "default", "coarse"},
   energy |-> {"none", "synch", "fermi", "both", "pull", "piece", "cross", "meet", "noisy", "density", "const", "real"},
   rel    |-> {"none", "escape", "grow", "density", "both"},
   abs    |-> {"none", "inject", "leak", "both"},
   start  |-> {"PowerLaw", "BrokenPowerLaw", "LogParabola", "InterpolatedDistribution", "EmptyDistribution"},
   form   |-> {"dict", "list", "single"},
   steps  |-> {"one", "exact", "rest", "many", "over", "under"},
   fail   |-> {"no", "yes"},
   again  |-> {"no", "fresh", "continue"}]

\* value of a field once it is chosen
At(x, f) == IF f \in DOMAIN x THEN x[f] ELSE "?"
Chosen(x, f) == f \in DOMAIN x
\* ---- combinations the library refuses at construction
RefusedOf(x) ==
  \/ At(x, "mode") = "lazy" /\ At(x, "method") = "heun"
  \/ At(x, "init") = "split" /\ Chosen(x, "groups") /\ x["groups"] = 0
\* ---- combinations that make no sense for the driver
Sensible(x) ==
  \* crossing bins cannot be re-expressed; bins meet after a fixed step (in every group)
  /\ (At(x, "energy") = "cross" /\ Chosen(x, "groups")) => x["groups"] \in {0, 1}
  /\ (At(x, "energy") = "meet" /\ Chosen(x, "mode")) => x["mode"] = "fixed"
  /\ (At(x, "energy") = "meet" /\ Chosen(x, "method")) => x["method"] = "euler"
  /\ At(x, "start") = "EmptyDistribution" => x["abs"] \in {"inject", "both", "none"} /\ x["init"] # "split"
  /\ At(x, "fail") = "yes" => x["mode"] = "fixed"
  /\ At(x, "form") = "single" => x["groups"] = 0
  /\ (Chosen(x, "form") /\ x["groups"] # 0) => x["form"] = "dict"

Only ==
  CASE Family = "time"   -> [fail |-> {"no"}, energy |-> All.energy \ {"cross"}]
    [] Family = "update" -> [mode |-> {"fixed", "auto"}, groups |-> {0, 1, 2}, bounds |-> {"none"}, merge |-> {"none", "default"},
                             again |-> {"no"}]
    [] Family = "bins"   -> [mode |-> {"fixed", "lazy"}, bounds |-> {"none", "limits", "inner", "wide"}, groups |-> {0, 1, 2},
                             init |-> {"explicit", "close", "default"}, abs |-> {"none", "inject"}, fail |-> {"no"}, steps |-> {"rest", "many"},
                             energy |-> All.energy \ {"none", "const", "real"}]
    [] Family = "groups" -> [groups |-> {1, 2, 3}, energy |-> All.energy \ {"cross", "none"}, fail |-> {"no"}]
    [] Family = "auto"   -> [energy |-> All.energy \ {"meet"}, mode |-> {"auto", "lazy"}, steps |-> {"rest", "many"}, fail |-> {"no"}]
    [] OTHER -> <<>>
Options(f) == IF f \in DOMAIN Only THEN Only[f] ELSE All[f]
K == Cardinality(DOMAIN c) + 1

Init == c = <<>>
Next == /\ K <= Len(Fields)
        /\ \E v \in Options(Fields[K]) :
             LET x == (Fields[K] :> v) @@ c
             IN  ~RefusedOf(x) /\ Sensible(x) /\ c' = x
Spec == Init /\ [][Next]_vars
Done == K > Len(Fields)
Emit == (Gen /\ Done) => PrintT(<<"BEH", [j \in 1..Len(Fields) |-> c[Fields[j]]]>>)
=============================================================================
