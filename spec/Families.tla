------------------------------- MODULE Families -------------------------------
(* Instances of the session model: one small instance for exhaustive checking    *)
(* and one per family of objects for generating behaviours.                      *)
EXTENDS SessionModel

DistF == {"norm", "idx1", "idx2", "brk", "lo", "hi"}
BlobF == {"R_b", "z", "delta_D", "Gamma", "B", "xi"}

\* ---- small: two regions, their own default distributions, a shared one, a process
SmallKind == [a |-> "Blob", b |-> "Blob2", da |-> "Dist", db |-> "Dist", d |-> "Dist", p |-> "Proc"]
SmallFields == [Blob |-> {"B", "Gamma", "delta_D"}, Blob2 |-> {"B"}, Dist |-> {"p"}, Proc |-> {}]
SmallRefs == [Blob |-> [n_e |-> {"da", "d"}], Blob2 |-> [n_e |-> {"db", "d"}],
              Dist |-> <<>>, Proc |-> [blob |-> {"a", "b"}]]
SmallInit == [a |-> [n_e |-> "da"], b |-> [n_e |-> "db"], da |-> <<>>, db |-> <<>>, d |-> <<>>,
              p |-> [blob |-> "a"]]
SmallObs == [Blob |-> {"x"}, Blob2 |-> {"x"}, Dist |-> {"x"}, Proc |-> {"x"}]

\* ---- distributions
DistKind == [d1 |-> "Dist", d2 |-> "Dist"]
DistFields == [Dist |-> DistF]
DistRefs == [Dist |-> <<>>]
DistInit == [d1 |-> <<>>, d2 |-> <<>>]
DensObs == [Dist |-> {"dens"}]
SsaObs == [Dist |-> {"ssa"}]
IntObs == [Dist |-> {"integrate"}]

\* ---- regions with electrons and protons; e1, e2 are the distributions the
\*      regions were created with (made by default or given)
BlobKind == [b1 |-> "Blob", b2 |-> "Blob", e1 |-> "Dist", e2 |-> "Dist",
             d1 |-> "Dist", d2 |-> "Dist", d3 |-> "PDist"]
BlobFields == [Blob |-> BlobF \cup {"ge", "dL"}, Dist |-> DistF, PDist |-> {"norm", "idx1"}]
BlobRefs == [Blob |-> [n_e |-> {"e1", "e2", "d1", "d2"}, n_p |-> {"none", "d3"}],
             Dist |-> <<>>, PDist |-> <<>>]
BlobInit == [b1 |-> [n_e |-> "e1", n_p |-> "none"], b2 |-> [n_e |-> "e2", n_p |-> "d3"],
             e1 |-> <<>>, e2 |-> <<>>, d1 |-> <<>>, d2 |-> <<>>, d3 |-> <<>>]
BlobObs == [Blob |-> {"geom", "electrons", "energy", "jet", "protons"}, Dist |-> {}, PDist |-> {}]
ConsObs == [Blob |-> {"constraints", "constraintsEC"}, Dist |-> {}, PDist |-> {}]

\* ---- processes of a region
ProcKind == [b1 |-> "Blob", b2 |-> "Blob", e1 |-> "Dist", e2 |-> "Dist", d1 |-> "Dist", d3 |-> "PDist",
             p |-> "Proc", q |-> "Proc"]
ProcFields == [Blob |-> BlobF, Dist |-> DistF, PDist |-> {"norm", "idx1"}, Proc |-> {"ssa", "rule"}]
ProcRefs == [Blob |-> [n_e |-> {"e1", "e2", "d1"}, n_p |-> {"d3"}],
             Dist |-> <<>>, PDist |-> <<>>, Proc |-> [blob |-> {"b1", "b2"}]]
ProcInit == [b1 |-> [n_e |-> "e1", n_p |-> "d3"], b2 |-> [n_e |-> "e2", n_p |-> "d3"],
             e1 |-> <<>>, e2 |-> <<>>, d1 |-> <<>>, d3 |-> <<>>,
             p |-> [blob |-> "b1"], q |-> [blob |-> "b2"]]
ProcObs(S) == [Blob |-> {}, Dist |-> {}, PDist |-> {}, Proc |-> S]
SynObs == ProcObs({"sed", "delta", "tau", "loss", "proton", "static"})
SscObs == ProcObs({"sed", "loss", "thomson", "static"})
\* the ready-made rate functions made from the processes, and evolutions of a region
RateObs == [Blob |-> {"evolve"}, Dist |-> {}, PDist |-> {}, Proc |-> {"synch", "ssc", "thomson", "fermi"}]
ShowObs == [Blob |-> {"show"}, Dist |-> {"show"}, PDist |-> {"show"}]
RelObs == ProcObs({"lum", "diff", "eint", "fint", "peak"})
PureObs == [Blob |-> {"electrons", "energy"}, Dist |-> {"dens"}, PDist |-> {},
            Proc |-> {"sed", "ssc", "loss", "ec", "tau", "target", "repeat", "split"}]

\* ---- absorption models
EblKind == [m1 |-> "Ebl", m2 |-> "Ebl"]
EblFields == [Ebl |-> {"model"}]
EblRefs == [Ebl |-> <<>>]
EblInit == [m1 |-> <<>>, m2 |-> <<>>]
EblObs == [Ebl |-> {"node", "inside", "edge", "outside"}]

\* ---- processes on external targets
TgtF == {"L", "q", "R", "T"}
EcKind == [b1 |-> "Blob", d1 |-> "Dist", t |-> "Tgt", p |-> "Proc"]
EcFields == [Blob |-> {"z", "delta_D", "Gamma", "R_b"}, Dist |-> DistF,
             Tgt |-> TgtF, Proc |-> {"r", "flags"}]
EcRefs == [Blob |-> <<>>, Dist |-> <<>>, Tgt |-> <<>>, Proc |-> <<>>]
EcInit == [b1 |-> <<>>, d1 |-> <<>>, t |-> <<>>, p |-> <<>>]
EcObs == [Blob |-> {}, Dist |-> {}, Tgt |-> {}, Proc |-> {"sed"}]
TgtObs == [Blob |-> {}, Dist |-> {}, Tgt |-> {"u", "ublob", "derived", "sed"}, Proc |-> {}]
TgtShow == [Blob |-> {}, Dist |-> {}, Tgt |-> {"show"}, Proc |-> {}]
AbsObs == [Blob |-> {}, Dist |-> {}, Tgt |-> {}, Proc |-> {"tau", "att"}]
=============================================================================
