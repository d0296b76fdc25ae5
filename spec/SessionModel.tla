----------------------------- MODULE SessionModel -----------------------------
(* Design model of a user session and generator of behaviours.                   *)
(*                                                                               *)
(* Spec side: ver[o][f] is the version of field f of object o, ref[o][f] the     *)
(* object it refers to.  What an observation of o must return is a function of   *)
(* the versions reachable from o *now* (View).    Implementation side: mem, the  *)
(* objects' memory, plus caches/copies an implementation might keep; the         *)
(* constant Defect selects a wrong implementation, which Fresh/Pure/Isolated     *)
(* must reject.  With Gen = TRUE the model also records the history, which is    *)
(* printed at depth Depth and replayed on agnpy.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Kind,      \* record: object -> kind
          Fields,    \* record: kind -> set of value fields
          Refs,      \* record: kind -> record: reference field -> set of objects
          Init0,     \* record: object -> record: reference field -> object at start
          ObsOf,     \* record: kind -> set of observables
          Variants,  \* number of argument variants of an observation
          V,         \* values per field
          Doppler,   \* set of objects with a joint update of two fields
          Defect, Depth, Gen

VARIABLES ver, ref, mem, copy, cache, last, turn, hist
vars == <<ver, ref, mem, copy, cache, last, turn, hist>>

Objs == DOMAIN Kind
FieldsOf(o) == Fields[Kind[o]]
RefsOf(o) == DOMAIN Refs[Kind[o]]
Joint == {"Gamma", "delta_D"}

RECURSIVE Closure(_, _)
Closure(o, rf) == {o} \cup UNION {Closure(rf[o][f], rf) : f \in {g \in RefsOf(o) : rf[o][g] \in Objs}}
\* what is readable from o: every field of every object reachable from it
Sees(o, vr, rf) == {t \in {<<f, x>> : x \in Closure(o, rf), f \in UNION {Fields[k] : k \in DOMAIN Fields}} :
                        t[1] \in DOMAIN vr[t[2]]}
View(o, vr, rf) == {<<t[2], t[1], vr[t[2]][t[1]]>> : t \in Sees(o, vr, rf)}

Zeros == [o \in Objs |-> [f \in FieldsOf(o) |-> 0]]
None == {<<"none", "none", 0>>}
Init ==
  /\ ver = Zeros /\ mem = Zeros
  /\ ref = [o \in Objs |-> [f \in RefsOf(o) |-> Init0[o][f]]]
  /\ copy = Zeros            \* snapshot of objects taken when they are attached
  /\ cache = [o \in Objs |-> None]
  /\ last = TRUE
  /\ turn = 0 /\ hist = <<>>

Log(a) == hist' = IF Gen THEN Append(hist, a) ELSE hist
\* memory written by an update of (o, f); two objects made by default may be one
Shared(o) == IF Defect = "sharedDefault" /\ o \in {"da", "db"} THEN {"da", "db"} \cap Objs ELSE {o}

Set(o, f, v) ==
  /\ ver[o][f] # v
  /\ ver' = [ver EXCEPT ![o][f] = v]
  /\ mem' = [x \in Objs |-> IF x \in Shared(o) /\ f \in FieldsOf(x) THEN [mem[x] EXCEPT ![f] = v] ELSE mem[x]]
  /\ cache' = [cache EXCEPT ![o] = None]
  /\ UNCHANGED <<ref, copy>>
  /\ Log(<<"set", o, f, v>>)
Ref(o, f, t) ==
  /\ ref[o][f] # t
  /\ ref' = [ref EXCEPT ![o][f] = t]
  /\ copy' = IF Defect = "copyOnAttach" /\ t \in Objs THEN [copy EXCEPT ![t] = mem[t]] ELSE copy
  /\ cache' = [cache EXCEPT ![o] = None]
  /\ UNCHANGED <<ver, mem>>
  /\ Log(<<"ref", o, f, t>>)
JointSet(o, v) ==
  /\ ver' = [ver EXCEPT ![o] = [f \in DOMAIN ver[o] |-> IF f \in Joint THEN v + 10 ELSE ver[o][f]]]
  /\ mem' = [mem EXCEPT ![o] = [f \in DOMAIN mem[o] |->
                IF f = "Gamma" \/ (f = "delta_D" /\ Defect # "jointPartial") THEN v + 10 ELSE mem[o][f]]]
  /\ cache' = [cache EXCEPT ![o] = None]
  /\ UNCHANGED <<ref, copy>>
  /\ Log(<<"joint", o, v>>)
Observe(tag, o, w, k) ==
  LET m == IF Defect = "copyOnAttach"
           THEN [x \in Objs |-> IF x # o /\ Kind[x] = "Dist" THEN copy[x] ELSE mem[x]] ELSE mem
      got == IF Defect = "staleCache" /\ cache[o] # None THEN cache[o] ELSE View(o, m, ref)
  IN /\ last' = (got = View(o, ver, ref))
     /\ cache' = IF Defect = "staleCache" THEN [cache EXCEPT ![o] = got] ELSE cache
     /\ mem' = IF Defect = "evalMutates"
               THEN [x \in Objs |-> IF x # o /\ x \in Closure(o, ref)
                      THEN [f \in DOMAIN mem[x] |-> (mem[x][f] + 1) % V] ELSE mem[x]]
               ELSE mem
     /\ UNCHANGED <<ver, ref, copy>>
     /\ Log(<<tag, o, w, k>>)

MutateIn(S) ==
  /\ \/ \E o \in S : \E f \in FieldsOf(o), v \in 0..(V-1) : Set(o, f, v)
     \/ \E o \in S : \E f \in RefsOf(o) : \E t \in Refs[Kind[o]][f] : Ref(o, f, t)
     \/ \E o \in S \cap Doppler : \E v \in 0..(V-1) : JointSet(o, v)
  /\ UNCHANGED last
Mutate == MutateIn(Objs)
Look == \E o \in Objs : \E w \in ObsOf[Kind[o]], k \in 1..Variants : Observe("obs", o, w, k)

\* the same observation with the same arguments, one change of a visible parameter later
LastObs == LET S == {i \in 1..Len(hist) : hist[i][1] = "obs"}
           IN  hist[CHOOSE i \in S : \A x \in S : x <= i]
Again == LET a == LastObs IN Observe("again", a[2], a[3], a[4])

\* turn (generation only): 0 look next, 1 change something next, 2 repeat the last look next
Next ==
  /\ (Gen => Len(hist) < Depth)
  /\ \/ (Gen => turn = 0) /\ Look /\ turn' = 1
     \/ (Gen => turn = 1) /\ Mutate /\ turn' = 0
     \/ Gen /\ turn = 1 /\ Mutate /\ turn' = 1
     \/ Gen /\ turn = 1 /\ MutateIn(Closure(LastObs[2], ref)) /\ turn' = 2
     \/ Gen /\ turn = 1 /\ MutateIn({LastObs[2]}) /\ turn' = 2
     \/ Gen /\ turn = 2 /\ Again /\ turn' = 1
Spec == Init /\ [][Next]_vars

\* every observation equals the documented function of the current parameters
Fresh == last
\* memory is what the user's updates made of it: no hidden mutation, no sharing
Pure == \A o \in Objs : mem[o] = ver[o]
Emit == (Gen /\ Len(hist) = Depth) => PrintT(<<"BEH", hist>>)
=============================================================================
