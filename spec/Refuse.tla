-------------------------------- MODULE Refuse --------------------------------
(* What agnpy refuses.  A case is a record [subject, and one category per argument]; *)
(* Broken(c) is the set of documented limits the case oversteps, Kinds(c) the kinds  *)
(* of error that may be raised for it.  A case that oversteps nothing is accepted.   *)
(* TLC enumerates every case (up to Reach arguments away from the ordinary one for   *)
(* the subject with many arguments) and checks that the table is sound: each limit   *)
(* is the only one overstepped by some case (Alone), and every refused case is next  *)
(* to an accepted one (Near).  Defect drops one limit, or widens it.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Reach, Gen, Defect
VARIABLE c

\* ---- arguments and their categories; the first one is the ordinary one
Args ==
  [blob |-> <<<<"delta_D", <<"float", "int", "npint", "npfloat", "tiny", "zero", "intzero", "negative", "string", "quantity", "none", "list", "array">>>>,
              <<"R_b", <<"cm", "pc", "time", "bare">>>>,
              <<"particles", <<"default", "given", "both">>>>>>,
   dist |-> <<<<"cls", <<"PowerLaw", "BrokenPowerLaw", "LogParabola", "ExpCutoffPowerLaw", "ExpCutoffBrokenPowerLaw", "InterpolatedDistribution">>>>,
              <<"via", <<"init", "total_density", "total_energy_density", "total_energy", "density_at_1">>>>,
              <<"mass", <<"m_e", "m_p", "default", "m_n", "muon", "float", "string", "none">>>>>>,
   table |-> <<<<"unit", <<"cm-3", "1/cm3", "m-3", "cm-2", "none", "scaled">>>>,
               <<"mass", <<"m_e", "m_p", "m_n">>>>>>,
   frequency |-> <<<<"fn", <<"epsilon_equivalency", "nu_to_epsilon_prime">>>>,
                   <<"mass", <<"m_e", "m_p", "default", "m_n", "float", "none">>>>,
                   <<"z", <<"0", "1">>>>>>,
   disk |-> <<<<"R_in", <<"cm", "pc", "time", "int", "float">>>>,
              <<"R_out", <<"cm", "pc", "time", "int", "float">>>>,
              <<"R_g_units", <<"default", "no", "yes">>>>>>,
   blr |-> <<<<"line", <<"Lyalpha", "Hbeta", "any", "lower", "unknown", "empty", "none", "wavelength">>>>>>,
   absorber |-> <<<<"target", <<"disk", "blr", "dt", "point", "blob">>>>,
                  <<"r", <<"given", "none", "omitted">>>>,
                  <<"mu_s", <<"1", "0.9">>>>>>,
   ebl |-> <<<<"model", <<"default", "franceschini_2008", "franceschini_2017", "dominguez_2011", "finke_2010", "saldana_lopez_2021",
                          "franceschini", "upper", "unknown", "empty", "none">>>>>>,
   fit |-> <<<<"scenario", <<"ssc", "ec">>>>,
             <<"backend", <<"default", "gammapy", "sherpa", "upper", "unknown", "none", "empty">>>>,
             <<"ssa", <<"default", "yes">>>>>>,
   folder |-> <<<<"main", <<"str", "path", "int", "none", "bytes">>>>,
                <<"sub", <<"none", "str">>>>>>,
   protons |-> <<<<"before", <<"given", "nothing", "set", "removed", "replaced">>>>,
                 <<"read", <<"n_p", "gamma_p", "n_p_tot", "N_p_tot", "u_p", "W_p", "str">>>>>>,
   run |-> <<<<"fault", <<"no", "slow", "gamma", "cross", "leak", "empty">>>>,
             <<"mode", <<"fixed", "auto", "single">>>>,
             <<"groups", <<"none", "two">>>>>>,
   evolution |-> <<<<"step", <<"default", "auto", "time", "minutes", "zero", "negative", "length", "number", "string", "none">>>>,
                   <<"lazy", <<"default", "on", "off">>>>,
                   <<"method", <<"euler", "default", "Euler", "heun", "HEUN", "rk4", "empty">>>>,
                   <<"names", <<"distinct", "energy-rel", "energy-abs", "rel-abs">>>>,
                   <<"init", <<"good", "none", "two", "touch", "unsorted", "falling", "equal", "below", "above">>>>,
                   <<"bounds", <<"none", "wide">>>>,
                   <<"groups", <<"two", "none", "one", "unknown", "late">>>>,
                   <<"dens", <<"none", "good", "near", "sum", "bin", "even", "long", "short", "rows", "row">>>>>>]
Subjects == DOMAIN Args
Fields(s) == {Args[s][k][1] : k \in 1..Len(Args[s])}
Cats(s, f) == LET k == CHOOSE k \in 1..Len(Args[s]) : Args[s][k][1] = f IN {Args[s][k][2][m] : m \in 1..Len(Args[s][k][2])}
Ordinary(s, f) == LET k == CHOOSE k \in 1..Len(Args[s]) : Args[s][k][1] = f IN Args[s][k][2][1]
Most(s) == IF s = "evolution" THEN Reach ELSE Cardinality(Fields(s))
Away(x) == Cardinality({f \in Fields(x.subject) : x[f] # Ordinary(x.subject, f)})

\* ---- limits: name -> <<does case x overstep it, kinds of error>>
NotMass == {"m_n", "muon", "float", "string", "none"}
Lengths == {"cm", "pc"}
Numbers == {"int", "float"}
HasProtons(x) == x.before \in {"given", "set", "replaced"}
Lazy(x) == x.lazy = "on" \/ (x.lazy = "default" /\ x.step \in {"default", "auto"})
Fixed(x) == x.step \notin {"default", "auto"}
Heun(x) == x.method \in {"heun", "HEUN"}
NGroups(x) == IF x.groups = "one" THEN 1 ELSE 2
Value == {"ValueError"}
Of ==
  [doppler |-> "blob",
   radius |-> "blob",
   particle |-> "dist",
   tabulated |-> "table",
   tableparticle |-> "table",
   reference |-> "frequency",
   bare |-> "disk",
   dressed |-> "disk",
   span |-> "disk",
   line |-> "blr",
   distance |-> "absorber",
   ebl |-> "ebl",
   backend |-> "fit",
   folder |-> "folder",
   protons |-> "protons",
   gamma |-> "run",
   cross |-> "run",
   leak |-> "run",
   empty |-> "run",
   steptype |-> "evolution",
   steptime |-> "evolution",
   steplength |-> "evolution",
   lazystep |-> "evolution",
   method |-> "evolution",
   lazyheun |-> "evolution",
   names |-> "evolution",
   order |-> "evolution",
   lower |-> "evolution",
   upper |-> "evolution",
   members |-> "evolution",
   ungrouped |-> "evolution",
   unbinned |-> "evolution",
   sum |-> "evolution",
   columns |-> "evolution",
   rows |-> "evolution"]
Limits == DOMAIN Of
\* gamma: a loss that carries a bin below zero energy; cross: bins overtaking each other;
\* leak: more escape than particles; empty: escape from bins without particles
Oversteps(l, x) ==
  CASE l = "doppler" -> x.delta_D \in {"zero", "intzero", "negative", "string", "quantity", "none", "list", "array"}
    [] l = "radius" -> x.R_b \in {"time", "bare"}
    [] l = "particle" -> x.mass \in NotMass
    [] l = "tabulated" -> x.unit \in {"m-3", "cm-2", "none", "scaled"}
    [] l = "tableparticle" -> x.mass \in NotMass
    [] l = "reference" -> x.mass \in NotMass
    [] l = "bare" -> x.R_g_units # "yes" /\ {x.R_in, x.R_out} \cap Numbers # {}
    [] l = "dressed" -> x.R_g_units = "yes" /\ {x.R_in, x.R_out} \ Numbers # {}
    [] l = "span" -> x.R_g_units # "yes" /\ "time" \in {x.R_in, x.R_out}
    [] l = "line" -> x.line \in {"lower", "unknown", "empty", "none", "wavelength"}
    [] l = "distance" -> x.r \in {"none", "omitted"} /\ x.target # "blob"
    [] l = "ebl" -> x.model \in {"franceschini", "upper", "unknown", "empty", "none"}
    [] l = "backend" -> x.backend \in {"upper", "unknown", "none", "empty"}
    [] l = "folder" -> x.main \in {"int", "none", "bytes"}
    [] l = "protons" -> x.read # "str" /\ ~HasProtons(x)
    [] l = "gamma" -> x.fault = "gamma" /\ x.mode # "auto"
    [] l = "cross" -> x.fault = "cross" /\ x.mode # "auto"
    [] l = "leak" -> x.fault = "leak" /\ x.mode # "auto"
    [] l = "empty" -> x.fault = "empty"
    [] l = "steptype" -> x.step \in {"number", "string", "none"}
    [] l = "steptime" -> x.step = "length"
    [] l = "steplength" -> x.step \in {"zero", "negative"}
    [] l = "lazystep" -> x.lazy = "on" /\ Fixed(x)
    [] l = "method" -> x.method \in {"rk4", "empty"}
    [] l = "lazyheun" -> Heun(x) /\ Lazy(x)
    [] l = "names" -> x.names # "distinct"
    [] l = "order" -> x.init \in {"unsorted", "falling", "equal"}
    [] l = "lower" -> x.init = "below" /\ x.bounds # "none"
    [] l = "upper" -> x.init = "above" /\ x.bounds # "none"
    [] l = "members" -> x.groups \in {"unknown", "late"}
    [] l = "ungrouped" -> x.dens # "none" /\ x.groups = "none"
    [] l = "unbinned" -> x.dens # "none" /\ x.init = "none"
    [] l = "sum" -> x.dens \in {"sum", "bin", "even"}
    [] l = "columns" -> x.dens \in {"long", "short"}
    [] l = "rows" -> x.dens = "rows" \/ (x.dens = "row" /\ NGroups(x) # 1)
KindsOf(l) ==
  CASE l \in {"tabulated", "particle"} -> Value \cup {"AttributeError"}
    [] l \in {"bare", "dressed", "folder"} -> {"TypeError"}
    [] l \in {"span", "steptime"} -> {"UnitsError"}
    [] l \in {"line"} -> {"NameError"}
    [] l \in {"protons"} -> {"AttributeError"}
    [] l \in {"radius"} -> {"UnitsError", "AttributeError", "TypeError"}
    [] OTHER -> Value

\* combinations that cannot be written down
Sensible(x) ==
  CASE x.subject = "dist" -> (x.via # "init" => x.cls # "InterpolatedDistribution" /\ x.mass # "default")
    [] x.subject = "run" -> (x.mode = "auto" => x.fault \in {"no", "slow", "empty"})
    [] OTHER -> TRUE
Broken(x) == {l \in Limits : Of[l] = x.subject /\ Oversteps(l, x)}
Kinds(x) == UNION {KindsOf(l) : l \in Broken(x)}
Accepted(x) == Broken(x) = {}

\* ---- the cases
RECURSIVE Product(_, _)
Product(s, F) ==
  IF F = {} THEN {[subject |-> s]}
  ELSE LET f == CHOOSE f \in F : TRUE IN
       {x \in {(f :> v) @@ y : v \in Cats(s, f), y \in Product(s, F \ {f})} :
          Cardinality({g \in DOMAIN x \ {"subject"} : x[g] # Ordinary(s, g)}) <= Most(s)}
CasesOf(s) == {x \in Product(s, Fields(s)) : Sensible(x)}
Cases == UNION {CasesOf(s) : s \in Subjects}

\* ---- a validator, as a sequence of checks; Defect: one of them is missing
Checks(x) == Broken(x) \ {Defect}
Init == c \in Cases
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Right == (Checks(c) = {}) = Accepted(c)
Kinded == Accepted(c) \/ Kinds(c) # {}
\* what is refused for one reason is at most two arguments away from something accepted
Changed(x) == {y \in {(f :> v) @@ x : f \in {g \in Fields(x.subject) : TRUE}, v \in UNION {Cats(x.subject, g) : g \in Fields(x.subject)}} :
                 \A f \in Fields(x.subject) : y[f] \in Cats(x.subject, f)}
Near == Cardinality(Broken(c)) = 1 =>
  \/ \E y \in Changed(c) : Sensible(y) /\ Accepted(y)
  \/ \E y \in Changed(c) : \E z \in Changed(y) : Sensible(z) /\ Accepted(z)
Plain == Away(c) = 0 => Accepted(c)
\* every limit decides some case alone
Alone == (Away(c) = 0) => \A l \in Limits : Of[l] = c.subject => \E x \in CasesOf(c.subject) : Broken(x) = {l}
Emit == Gen => PrintT(<<"BEH", c>>)
===============================================================================
