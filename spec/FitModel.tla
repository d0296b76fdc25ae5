------------------------------- MODULE FitModel -------------------------------
(* Design model of fit models and generator of histories: several models, whose     *)
(* parameters are set one by one or loaded from objects.  ver[m][f]: what parameter *)
(* f of model m must be (the version assigned last); mem: what the implementation    *)
(* holds; base: what it held when the model was built.  Defect selects a wrong       *)
(* implementation.                                                                   *)
EXTENDS FitNames, TLC
CONSTANTS Models, V, Defect, Depth, Gen,
          Live,         \* parameters considered (all of them when generating)
          Small         \* fixed configurations instead of all
VARIABLES cfg, ver, mem, base, last, turn, hist
vars == <<cfg, ver, mem, base, last, turn, hist>>
d(x) == Defect = x

Fields(c) == IF Live = {} THEN NameSet(c) ELSE NameSet(c) \cap Live
SmallCfg == [m1 |-> [scen |-> "ssc", tgts |-> <<>>, shape |-> "PowerLaw", backend |-> "gammapy", ssa |-> FALSE],
             m2 |-> [scen |-> "ec", tgts |-> <<"dt", "blr">>, shape |-> "PowerLaw", backend |-> "sherpa", ssa |-> FALSE]]
Unset == [x \in {} |-> 0]
Init == /\ cfg = IF Small THEN SmallCfg ELSE [m \in Models |-> <<>>]
        /\ ver = [m \in Models |-> IF Small THEN [f \in Fields(SmallCfg[m]) |-> 0] ELSE Unset]
        /\ mem = ver /\ base = ver
        /\ last = TRUE /\ hist = <<>>
        /\ turn = IF Small THEN "any" ELSE "new"
Log(a) == hist' = IF Gen THEN Append(hist, a) ELSE hist

New == /\ turn = "new"
       /\ LET m == CHOOSE x \in Models : cfg[x] = <<>> IN
          \E c \in Configs :
            /\ cfg' = [cfg EXCEPT ![m] = c]
            /\ ver' = [ver EXCEPT ![m] = [f \in Fields(c) |-> 0]]
            /\ mem' = [mem EXCEPT ![m] = [f \in Fields(c) |-> 0]]
            /\ base' = [base EXCEPT ![m] = [f \in Fields(c) |-> 0]]
            /\ turn' = IF \E x \in Models \ {m} : cfg[x] = <<>> THEN "new" ELSE "look"
            /\ Log(<<"new", m, c>>)
       /\ UNCHANGED last

\* the models holding the memory of parameter f of model m
Holders(m, f) == IF d("shared") /\ f = "z" THEN {x \in Models : f \in DOMAIN mem[x]} ELSE {m}
Assign(m, F, v) ==
  /\ ver' = [ver EXCEPT ![m] = [f \in DOMAIN ver[m] |-> IF f \in F THEN v ELSE ver[m][f]]]
  /\ mem' = [x \in Models |-> [f \in DOMAIN mem[x] |-> IF f \in F /\ x \in Holders(m, f) THEN v ELSE mem[x][f]]]
Set(m, f, v) == ver[m][f] # v /\ Assign(m, {f}, v) /\ Log(<<"set", m, f, v>>)
\* loading: the implementation may set fewer or more parameters than documented
Load(m, F, G, v, a) ==
  /\ ver' = [ver EXCEPT ![m] = [f \in DOMAIN ver[m] |-> IF f \in F THEN v ELSE ver[m][f]]]
  /\ mem' = [x \in Models |-> [f \in DOMAIN mem[x] |-> IF f \in G /\ x \in Holders(m, f) THEN v ELSE mem[x][f]]]
  /\ Log(a)
LoadRegion(m, v) ==
  LET F == RegionSet(cfg[m]) IN
  Load(m, F, IF d("partial") THEN F \ {"delta_D"} ELSE F, v, <<"region", m, v>>)
LoadTargets(m, which, v) ==
  LET F == TargetSet(which) IN
  Load(m, F, IF d("spill") THEN TargetSet({"blr", "dt"}) ELSE IF d("nodisk") THEN F \ SetOf(DiskP) ELSE F, v,
       <<"targets", m, which, v>>)
Look(m) ==
  /\ last' = ((IF d("stale") THEN base[m] ELSE mem[m]) = ver[m])
  /\ mem' = IF d("touch") THEN [mem EXCEPT ![m] = [f \in DOMAIN mem[m] |-> IF f = "log10_k" THEN 7 ELSE mem[m][f]]] ELSE mem
  /\ UNCHANGED <<ver, hist>>

Values == 1..V
Mutate(m) ==
  \/ \E f \in DOMAIN ver[m], v \in Values : Set(m, f, v)
  \/ \E v \in Values : LoadRegion(m, 10 + v)
  \/ cfg[m].scen = "ec" /\ \E w \in SUBSET SetOf(cfg[m].tgts), v \in Values : LoadTargets(m, w, 10 + v)
Next ==
  /\ (Gen => Len(hist) < Depth)
  /\ \/ New
     \/ turn \in {"any", "set"} /\ (\E m \in Models : Mutate(m)) /\ turn' \in (IF Gen THEN {"set", "look"} ELSE {turn})
        /\ UNCHANGED <<cfg, base, last>>
     \/ turn = "any" /\ (\E m \in Models : Look(m)) /\ turn' = turn /\ UNCHANGED <<cfg, base>>
     \/ turn = "look" /\ (\E m \in Models : Log(<<"look", m>>)) /\ turn' = "set" /\ UNCHANGED <<cfg, ver, mem, base, last>>
Spec == Init /\ [][Next]_vars
Fresh == last
Own == \A m \in Models : mem[m] = ver[m]
Emit == (Gen /\ Len(hist) = Depth) => PrintT(<<"BEH", hist>>)
=============================================================================
