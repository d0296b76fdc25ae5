"""C24: the ready-made rate functions of the time evolution (losses and acceleration)."""
import numpy as np
import astropy.units as u
import drv
from drv import j, jl
from objs import lu, as_unit, number, Dist, Proc
from c_dist import design, behaviours
from c_region import region_world, replay, gammas, NOEMPTY
from agnpy.synchrotron import Synchrotron
from agnpy.compton import SynchrotronSelfCompton
from agnpy.time_evolution.time_evolution import (TimeEvolution, synchrotron_loss, ssc_loss, ssc_thomson_limit_loss,
                                                 fermi_acceleration)
from agnpy.time_evolution.types import FnParams

EN = u.Unit("erg s-1")
LAWS = {"synch": synchrotron_loss, "ssc": ssc_loss, "thomson": ssc_thomson_limit_loss}
COST = {"synch": 1, "ssc": 12, "thomson": 1, "fermi": 1}


class Pair:
    """a synchrotron and a self-Compton process that change together, with the rate functions made from them"""

    def __init__(self, rec, rng, id, blob):
        self.rec, self.id = rec, id
        self.s = Proc(rec, rng, id + "s", "Synchrotron", Synchrotron, blob, ssa=rng.random() < 0.5)
        self.c = Proc(rec, rng, id + "c", "SynchrotronSelfCompton", SynchrotronSelfCompton, blob, ssa=rng.random() < 0.5)
        self.ok = self.s.ok and self.c.ok
        self.laws = {}
        if not self.ok:
            return
        for law, make in LAWS.items():
            p = self.s if law == "synch" else self.c
            if rec.new(id + law, "Rate", {"law": law, "proc": p.id}, lambda: make(p.o)):
                self.laws[law] = id + law
        t = as_unit(rng, lu(rng, 1e2, 1e7), ["s", "h", "d", "ms", "yr"])
        if rec.new(id + "fermi", "Rate", {"law": "fermi", "t": j(t.to_value("s"))}, lambda: fermi_acceleration(t)):
            self.laws["fermi"] = id + "fermi"
        self.t = t

    @property
    def blob(self):
        return self.s.blob

    def set(self, f, v):
        self.s.set(f, v)
        self.c.set(f, v)

    def attach(self, f, blob):
        self.s.attach(f, blob)
        self.c.attach(f, blob)


@drv.argument
def situation(rng, many):
    """what a rate function is given: Lorentz factors, densities, shares of the groups"""
    n = int(rng.integers(1, 9)) if many else 2
    if rng.random() < 0.06:
        n = int(rng.choice([100, 128, 200]))
    g = gammas(rng, n)
    if rng.random() < 0.3:
        g = np.repeat(g, 2) * np.tile([1, 1.0001], n)
    if rng.random() < 0.15:
        g = np.maximum(np.round(g), 2).astype(np.int64)
    if rng.random() < 0.2:
        g.setflags(write=False)
    groups = int(rng.integers(1, 4))
    d = 10 ** rng.uniform(-8, 4, n) * u.Unit(["cm-3", "m-3"][int(rng.integers(2))])
    return g, FnParams(g, d, rng.dirichlet(np.ones(groups), n).T)


def settle(rec, b, seen):
    """names the distribution the library gave to the region"""
    n = b.o.n_e
    if seen and seen[-1] is n:
        return
    known = [k for k, o in rec.objs.items() if o is n]
    if known:
        id = known[0]
    else:
        id = "x%d" % len(rec.events)
        if type(n).__name__ == "EmptyDistribution":
            par = {"gamma_min": j(n.gamma_min), "gamma_max": j(n.gamma_max)}
        else:
            kind = "cubic" if type(getattr(n, "log10_interp", None)).__name__ == "CubicSpline" else "pchip"
            par = {"gin": jl(n.gamma_input), "nin": jl(u.Quantity(n.n_input, "cm-3").value), "interp": kind,
                   "mass": "e", "rule": "trapz", "norm": j(n.norm)}
        rec.new(id, type(n).__name__, par, lambda: n)
    seen.append(n)
    rec.set(b.id, "n_e", id, lambda: None)


class Enough(Exception):
    pass


def evolve(w, rec, rng, b):
    """a short evolution of the region under some of the ready-made functions: every call is an observation"""
    ps = [w[p] for p in ("p", "q") if w[p].ok and w[p].blob.o is b.o]
    if not ps or b.o.n_e.gamma_max > 1e9:
        return
    p = ps[int(rng.integers(len(ps)))]
    laws = [l for l in ("synch", "thomson", "ssc", "fermi") if l in p.laws and rng.random() < (0.3 if l == "ssc" else 0.6)]
    if not laws:
        return
    lo, hi = float(b.o.n_e.gamma_min), float(b.o.n_e.gamma_max)
    # times: the fastest bin changes by some tenths in a step
    g = np.array([lo, hi])
    mc2 = 8.187105787968449e-07
    x = 0.0
    for l in laws:
        ff = rec.objs[p.laws[l]]
        x = max(x, float(np.max(np.abs(ff(FnParams(g, np.ones(2) * u.Unit("cm-3"), np.ones((1, 2)))).to_value("erg s-1")) / (g * mc2))))
    if not np.isfinite(x) or x <= 0:
        return
    dt = lu(rng, 0.01, 0.3) / x
    seen, calls = [b.o.n_e], [0]

    def wrapped(l):
        def f(args):
            calls[0] += 1
            if calls[0] > 12 or (l == "ssc" and calls[0] > 5):
                raise Enough()
            settle(rec, b, seen)
            g, out = np.array(args.gamma, float), []

            def do():
                out.append(rec.objs[p.laws[l]](args))
                return out[0]
            rec.obs(p.laws[l], "rate", {"g": jl(g)}, do, "erg s-1", watch={"blob": b.o, "gamma": args.gamma, "densities": args.densities, "shares": args.density_subgroups})["w"] = COST[l]
            return out[0]
        return f

    def meanwhile(r):
        if vary:
            b.set("B", int(rng.integers(3)))
    vary = rng.random() < 0.4
    kw = {"method": "heun"} if rng.random() < 0.4 else {}
    try:
        TimeEvolution(b.o, rng.uniform(0.5, 3.4) * dt * u.s, {l: wrapped(l) for l in laws}, step_duration=dt * u.s,
                      initial_gamma_array=np.geomspace(lo * 1.0001, hi / 1.0001, int(rng.integers(4, 7))),
                      distribution_change_callback=meanwhile, **kw).evaluate()
    except Exception:           # whether it may fail is decided elsewhere (C15)
        pass
    settle(rec, b, seen)


def C24(ctx):
    design(ctx)
    beh = behaviours(ctx, "Proc", "RateObs", ctx.n(130, 800), 16, 4, 3, '{"b1"}')
    names = dict.fromkeys(["d1", "d3", "e2", "b2", "b1p"], True)

    def start(rec, rng, i):
        w = region_world(rec, rng, i, NOEMPTY, names, [12, 24, 60])
        for p, b in (("p", "b1"), ("q", "b2")):
            w[p] = Pair(rec, rng, p, w[b])
        return w

    def look(w, rec, rng, name, x, what, k):
        if what == "evolve":
            evolve(w, rec, rng, x)
        elif what in x.laws:
            g, args = situation(rng, what != "ssc")
            b = x.blob.o
            l = jl(g) if len(g) < 20 else drv.Picked.some(rng, jl(g), 2 if what != "ssc" else 0)
            rec.obs(x.laws[what], "rate", {"g": l}, lambda: rec.objs[x.laws[what]](args), "erg s-1",
                    watch={"blob": b, "gamma": g, "densities": args.densities, "shares": args.density_subgroups})["w"] = COST[what]
    ctx.validate(replay(ctx, beh, 24, start, look))
    ctx.assumptions += ["rates compared with relative tolerance 1e-7 (1e-6 with the Klein-Nishina suppression)",
                        "during an evolution the region's distribution is the one the library gave to the region at that call"]
