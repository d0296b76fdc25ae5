"""C14-C18: time evolution of the particle content of a region."""
import copy
import numpy as np
import astropy.units as u
from astropy.constants import m_e, c as c_light
import tlc, drv
from drv import j, jl
from objs import lu, Dist, CM3
from agnpy.emission_regions import Blob
from agnpy.synchrotron import Synchrotron
from agnpy.compton import SynchrotronSelfCompton
from agnpy.spectra import InterpolatedDistribution
from agnpy.time_evolution.time_evolution import (TimeEvolution, synchrotron_loss, fermi_acceleration, ssc_loss,
                                                 ssc_thomson_limit_loss)
try:
    from agnpy.time_evolution._time_evolution_utils import remove_empty_densities
except ImportError:
    remove_empty_densities = None

MEC2 = (m_e * c_light ** 2).to_value("erg")
FIELDS = ["energy", "mode", "method", "groups", "init", "bounds", "merge", "rel", "abs", "start", "form", "steps",
          "fail", "again"]
CLAUSES = {
    "C14": ["dt-fixed", "time", "labels", "ne", "end", "final", "history", "error"],
    "C15": ["start", "lb", "dens", "error", "noerror"],
    "C16": ["order", "bins", "bounds", "binlb", "dens", "error"],
    "C17": ["start", "frac", "sum", "dens", "error"],
    "C18": ["dt-auto", "fresh", "rates", "call", "error"],
}
FAMILY = {"C14": "time", "C15": "update", "C16": "bins", "C17": "groups", "C18": "auto"}
EN, REL, AB = u.Unit("erg s-1"), u.Unit("s-1"), u.Unit("s-1 cm-3")


class Enough(Exception):
    pass


class Evolution:
    """one region evolved once or twice; every call and callback is recorded"""

    def __init__(self, rng, cfg, cap=14):
        self.rng, self.cfg, self.cap = rng, cfg, cap
        self.events = []
        self.calls = {}

    # ------------------------------------------------------------ rate functions
    def energy_laws(self, kind, dt, gmin, gmax):
        """rate functions moving the bins by a moderate amount in a time dt"""
        rng, blob = self.rng, self.blob
        a = lu(rng, 0.003, 0.15) / dt
        un = [EN, EN, u.Unit("GeV s-1"), u.Unit("eV/h")][int(rng.integers(4))]

        def q(x):
            return (x * MEC2 * EN).to(un)
        if kind in ("synch", "both", "real"):
            # B such that the largest Lorentz factor loses the fraction a*dt in dt
            b = np.sqrt(a / (1.29e-9 * gmax))
            blob.B = b * u.G
        synch = synchrotron_loss(Synchrotron(blob))
        fermi = fermi_acceleration(((1 / a) * u.s).to(["s", "h", "ms"][int(rng.integers(3))]))
        g0 = np.sqrt(gmin * gmax)
        noise = np.random.default_rng(int(rng.integers(2 ** 31)))
        g1 = lu(rng, gmin * 1.1, max(gmax / 1.5, gmin * 1.2))

        def width(x, args):        # value per bound from a value per bin
            return np.repeat(x, len(args.gamma) // max(1, len(x)))
        cell = rng.uniform(0.15, 0.45) * np.log10(gmax / gmin)

        def meet(s):        # the bins of every other cell come together at its centre in one step
            lb = np.repeat(np.asarray(s.gamma, float)[::2], 2)
            k = np.floor(np.log10(lb) / cell)
            to = np.where(k % 2 == 0, 10 ** ((k + 0.5) * cell), lb)
            return ((to * (s.gamma / lb) * MEC2 - s.gamma * MEC2) / dt * EN).to(un)
        laws = {
            "none": {},
            "synch": {"synch": synch},
            "fermi": {"fermi": fermi},
            "both": {"fermi": fermi, "synch": synch},
            "pull": {"pull": lambda s: q((g1 - s.gamma) * 4 * a)},
            "piece": {"piece": lambda s: q(np.where(s.gamma < g0, 0.7 * a * s.gamma, -a * s.gamma))},
            "cross": {"cross": lambda s: q(np.where(np.floor(np.log10(s.gamma) * 3) % 2 == 0, 3 * a, -3 * a) * s.gamma)},
            "meet": {"meet": meet},
            "noisy": {"noisy": lambda s: q(-a * s.gamma * (1 + 0.5 * noise.uniform(-1, 1)))},
            "density": {"density": lambda s: q(-a * s.gamma * (1 + 0.5 * np.cos(width(np.log10(1e-30 + s.densities.to_value("cm-3")), s)))
                                               * (0.5 + width(np.asarray(s.density_subgroups[-1]), s)))},
            "const": {"const": lambda s: q(np.full(s.gamma.shape, a * gmin * 0.5)),
                      "slow": lambda s: q(-0.1 * a * s.gamma)},
            "real": {"synch": synch, "noisy": lambda s: q(0.3 * a * s.gamma * (1 + 0.5 * noise.uniform(-1, 1)))},
        }[kind]
        return laws

    def injections(self, rk, ak, dt, dens):
        rng = self.rng
        e = lu(rng, 0.01, 0.3) / dt
        gr, es = (lambda s: np.full(s.gamma.shape, e) / u.s), \
                 (lambda s: (-0.5 * e * (s.gamma / 100.0) ** 0.1 / u.s).to("1/h"))
        dn = lambda s: -e * s.densities / (s.densities + 1e-3 * CM3) / u.s
        rel = {"none": {}, "escape": {"esc": es}, "grow": {"grow": gr}, "density": {"dens-esc": dn},
               "both": {"esc": es, "grow": gr}}[rk]
        d0 = max(float(np.max(dens)), 1e-8)
        p = rng.uniform(1.5, 3)
        inj = lambda s: d0 * e * (s.gamma / 10.0) ** -p * u.Unit("cm-3 s-1")
        # never takes more than a part of what is there
        leak = lambda s: (-0.5 * e * s.densities / u.s).to("m-3 s-1")
        if self.cfg["fail"] == "yes" and rng.random() < 0.6:
            # asks for a little more than there is, in some bins
            more, cut, up = 1 + lu(rng, 1e-6, 0.5), float(self.blob.n_e.gamma_max) / lu(rng, 1, 1e3), rng.random() < 0.8
            leak = lambda s: (-s.densities * np.where((s.gamma > cut) == up, more, 0.1) / (self.dt * u.s)).to("m-3 s-1")
        ab = {"none": {}, "inject": {"inj": inj}, "leak": {"leak": leak}, "both": {"inj": inj, "leak": leak}}[ak]
        return rel, ab, d0 * e

    def wrap(self, label, unit, fn):
        def f(args):
            r = fn(args)
            g = np.array(args.gamma, float)
            lb = g[::2] if unit is EN else g
            self.calls.setdefault(label, []).append({
                "g": jl(g), "d": jl(args.densities.to_value("cm-3")), "s": [jl(x) for x in np.asarray(args.density_subgroups)],
                "r": jl(r.to_value(unit)), "ne": jl(self.blob.n_e(lb).to_value("cm-3")) if len(lb) else []})
            return r
        return f

    # ------------------------------------------------------------ one evolution
    def report(self, r):
        nm = lambda d, un: {self.names.get(k, "?" + str(k)): jl(v.to_value(un)) for k, v in d.items()}
        return {"t": j(r.total_time.to_value("s")), "g": jl(r.gamma), "d": jl(r.density.to_value("cm-3")),
                "s": [jl(x) for x in r.density_subgroups], "en": nm(r.en_chg_rates, EN),
                "rel": nm(r.rel_inj_rates, REL), "ab": nm(r.abs_inj_rates, AB)}

    def nonempty(self, res):
        """the result without the bins that hold nothing (a helper of the library, where it exists in this form)"""
        if remove_empty_densities is None:
            return {}
        try:
            r = remove_empty_densities(res)
        except TypeError:
            return {}
        return {"nz": self.report(r)}

    def region(self, g):
        ne = self.blob.n_e
        return {"kind": type(ne).__name__, "lo": j(ne.gamma_min), "hi": j(ne.gamma_max),
                "v": jl(ne(np.array(g)).to_value("cm-3")) if len(g) else []}

    def take(self):
        c, self.calls = self.calls, {}
        return c

    def callback(self, r):
        ev = {"op": "step", "id": "evo", "w": 1 + len(r.gamma) / 4, **self.report(r), "ne": self.region(r.gamma), "calls": self.take()}
        self.events.append(ev)
        self.given.append((r, self.report(r)))
        if len(self.given) >= self.cap:
            raise Enough()

    def start(self):
        rng, cfg = self.rng, self.cfg
        rec = drv.Recorder()
        if cfg["start"] == "EmptyDistribution":
            d = Dist(rec, rng, "n", "EmptyDistribution")
            d.o.gamma_min, d.o.gamma_max = 10.0, 1e5
            ne = {"kind": "EmptyDistribution", "gamma_min": 10, "gamma_max": 100000}
        else:
            while True:
                d = Dist(rec, rng, "n", cfg["start"])
                if d.ok and d.o.gamma_max < 1e6:
                    break
            ne = {"kind": cfg["start"], **rec.events[-1]["par"]}
        size = int(rng.integers(4, 10))
        self.blob = Blob(n_e=d.o, gamma_e_size=size, B=0.1 * u.G)
        self.size = size
        return ne

    def run(self, ne, again=None):
        rng, cfg, blob = self.rng, dict(self.cfg), self.blob
        n0 = blob.n_e
        lo, hi = float(n0.gamma_min), float(n0.gamma_max)
        kw, C = {}, {}
        # ---- bounds and initial bins
        bounds = {"none": None, "limits": (lo, hi), "inner": (lo * 1.7, hi / 1.7) if hi > 4 * lo else (lo, hi),
                  "wide": (max(1.0, lo / lu(rng, 1.1, 8)), hi * lu(rng, 1.1, 8))}[cfg["bounds"]]
        gamma = split = None
        if again is not None:
            gamma = again.gamma
            bounds = self.bounds
            if cfg["groups"]:
                split = again.density_subgroups
        elif cfg["init"] != "default":
            a, b = (lo, hi) if bounds is None else (max(lo, bounds[0]), min(hi, bounds[1]))
            if b <= a:
                a, b = bounds if bounds is not None and bounds[1] > bounds[0] else (a, 10 * a)
            m = int(rng.integers(3, 10))
            x = np.sort(rng.uniform(np.log10(a), np.log10(b), m))
            if cfg["init"] == "close":           # some bins nearly coincide
                for k in range(1, m - 1):
                    if rng.random() < 0.5:
                        x[k + 1] = x[k] + rng.choice([1e-3, 4e-3, 1e-4, 2e-2])
                x = np.sort(x)
                x = x[x <= np.log10(b)]
            if rng.random() < 0.5:
                x[0] = np.log10(a)
            gamma = np.unique(np.clip(10 ** x, a, b))
            if rng.random() < 0.15:
                gamma = np.unique(np.round(np.clip(gamma, np.ceil(a), None)).astype(int))
                gamma = gamma[(gamma >= a) & (gamma <= b)]
            if len(gamma) < 3:
                gamma = np.geomspace(a * 1.0001, b / 1.0001, 4)
            if cfg["init"] == "split" and cfg["groups"]:
                w = rng.dirichlet(np.ones(cfg["groups"]), len(gamma)).T
                if rng.random() < 0.3:           # disjoint groups
                    w = np.eye(cfg["groups"])[rng.integers(0, cfg["groups"], len(gamma))].T
                    if rng.random() < 0.5:
                        w = w.astype(int)
                split = w
        self.bounds = bounds
        if gamma is not None:
            kw["initial_gamma_array"] = gamma
        if bounds is not None:
            kw["gamma_bounds"] = bounds
        if cfg["bounds"] != "none" and rng.random() < 0.6:
            kw["max_bin_creep_from_bounds"] = float(rng.choice([0.02, 0.05, 0.3]))
        if cfg["merge"] != "default":
            kw["merge_bins_closer_than"] = None if cfg["merge"] == "none" else float(rng.choice([0.02, 0.1, 0.3]))
        # ---- time
        dt = lu(rng, 1.0, 3e3)
        steps = {"one": rng.uniform(0.2, 1.0), "exact": float(rng.integers(1, 7)), "rest": rng.uniform(1.1, 7.9), "many": rng.uniform(8, 12), "hundreds": rng.uniform(60, 260),
                 "over": rng.integers(1, 7) + lu(rng, 1e-7, 1e-2), "under": rng.integers(1, 7) - lu(rng, 1e-7, 1e-2)}[cfg["steps"]]
        total = dt * steps
        un = ["s", "s", "min", "h"][int(rng.integers(4))]
        if cfg["steps"] == "exact" and rng.random() < 0.5:
            dt = float(np.round(dt, 1))
            total = dt * steps
        T = (total * u.s).to(un)
        thrE, thrD = lu(rng, 0.02, 0.4), lu(rng, 0.02, 0.4)
        if cfg["mode"] == "fixed":
            step = (dt * u.s).to(["s", "min"][int(rng.integers(2))])
            kw["step_duration"] = step
            dts = step.to_value("s")
        else:
            dts = 0.0
            if cfg["mode"] == "auto" or rng.random() < 0.5:
                kw["optimize_recalculating_slow_rates"] = cfg["mode"] == "lazy"
            if cfg["mode"] == "auto" and rng.random() < 0.5:
                kw["step_duration"] = "auto"
            kw["max_energy_change_per_interval"] = thrE
            kw["max_density_change_per_interval"] = thrD
        if cfg["method"] == "heun" or rng.random() < 0.3:
            kw["method"] = [cfg["method"], cfg["method"].upper(), cfg["method"].capitalize()][int(rng.integers(3))]
        # ---- processes
        self.dt = dt
        slow = 40 if cfg["steps"] == "hundreds" else 1
        scale = slow * dt * (lu(rng, 20, 200) * 0.01 if cfg["fail"] == "yes" else 1.0)
        en = self.energy_laws(cfg["energy"], scale, lo, hi)
        rel, ab, rate = self.injections(cfg["rel"], cfg["abs"], scale, n0(np.geomspace(lo, hi, 5)).to_value("cm-3"))
        if cfg["mode"] != "fixed":
            kw["max_injection_per_interval"] = rate * dt * lu(rng, 0.05, 1)
        C["thrE"], C["thrD"] = kw.get("max_energy_change_per_interval", 0.01), kw.get("max_density_change_per_interval", 0.1)
        C["maxInj"] = j(float(kw.get("max_injection_per_interval", 1.0)))
        C["creep"] = kw.get("max_bin_creep_from_bounds", 0.1)
        mg = kw.get("merge_bins_closer_than", 1.5e-3)
        C["merge"] = [] if mg is None else [mg]
        C["bounds"] = [] if bounds is None else [j(b) for b in bounds]
        C["gamma"] = [] if gamma is None else jl(gamma)
        C["split"] = [] if split is None else [jl(x) for x in split]
        C["size"] = self.size
        C["dt"], C["total"] = j(dts), j(T.to_value("s"))
        C["auto"], C["lazy"], C["heun"] = cfg["mode"] != "fixed", cfg["mode"] == "lazy", cfg["method"] == "heun"
        C["en"], C["rel"], C["ab"] = list(en), list(rel), list(ab)
        fams = [{k: self.wrap(k, un_, f) for k, f in x.items()} for x, un_ in ((en, EN), (rel, REL), (ab, AB))]
        labels = list(en) + list(rel) + list(ab)
        self.names = {k: k for k in labels}
        if cfg["groups"]:
            ng = cfg["groups"]
            groups = [[] for _ in range(ng)]
            if ng == 1:
                groups[0] = list(labels)
            else:
                for l in labels:
                    for g in range(ng):
                        if rng.random() < 0.6 or (l in en and cfg["energy"] == "meet"):
                            groups[g].append(l)
            if rng.random() < 0.5:
                for g in groups:
                    rng.shuffle(g)
            kw["subgroups"] = [list(map(str, g)) for g in groups]
            C["groups"] = kw["subgroups"]
            if split is not None:
                kw["subgroups_initial_density"] = split
        else:
            C["groups"] = [labels]
        args = list(fams)
        if cfg["form"] != "dict":
            args = []
            for x in fams:
                fs = list(x.values())
                self.names.update({str(f): k for k, f in x.items()})
                if cfg["form"] == "single" and len(fs) == 1:
                    args.append(fs[0])
                else:
                    args.append(fs if rng.random() < 0.7 else tuple(fs))
        pos = {"energy_change_functions": args[0]}
        for k, a in (("rel_injection_functions", args[1]), ("abs_injection_functions", args[2])):
            if a or rng.random() < 0.3:
                pos[k] = a
        self.made = None
        watch = {"gamma": gamma, "split": split, "subgroups": kw.get("subgroups"), "functions": pos, "options": kw}
        make = lambda: TimeEvolution(blob, T, **pos, **kw, distribution_change_callback=self.callback)
        return self.go(ne, C, cfg, watch, make)

    def go(self, ne, C, cfg, watch, make):
        self.given, self.calls = [], {}
        ev = {"op": "evo", "id": "evo", "w": 3, "C": C, "cfg": {k: str(v) for k, v in cfg.items()}}
        before = drv.digest(watch)
        # the rates of the initial state are asked for before the first step
        self.events.append(ev)
        res = None
        mark = len(self.events)
        try:
            if self.made is None:
                evo = make()
                if ne is not None and self.rng.random() < 0.4:     # prepared now, started after a change of the region
                    ne = self.change(ne)
                self.made = (evo, C, cfg, watch)
            else:
                evo = self.made[0]
            if ne is not None:
                ev["ne"] = ne
            res = evo.evaluate()
        except Enough:
            self.events.append({"op": "stopped", "id": "evo"})
        except Exception as e:
            if ne is not None:
                ev["ne"] = ne
            self.events.append({"op": "fail", "id": "evo", "err": type(e).__name__ + ": " + str(e)[:120], "calls": self.take()})
        # calls made before the first report belong to the start, except those of the first step
        steps = self.events[mark:]
        ev["calls"] = {}
        if steps:
            s0 = steps[0]
            cs = s0.get("calls", {})
            ev["calls"] = {l: c[:1] for l, c in cs.items()}
            if "calls" in s0:
                s0["calls"] = {l: c[1:] for l, c in cs.items()}
        else:
            ev["calls"] = self.take()
        if res is not None:
            hist = []
            for r, snap in self.given:
                hist.append(self.report(r) == snap)
            hist.append(drv.digest(watch) == before)
            self.events.append({"op": "end", "id": "evo", **self.report(res), "ne": self.region(res.gamma), "hist": hist,
                                **self.nonempty(res)})
        return res

    def change(self, ne):
        """another normalisation of the region's distribution: in place, or as another distribution"""
        f = {"EmptyDistribution": None, "InterpolatedDistribution": "norm"}.get(ne["kind"], "k")
        if f is None:
            return ne
        n, x = self.blob.n_e, lu(self.rng, 0.2, 5)
        if self.rng.random() < 0.3:
            n = copy.copy(n)
            self.blob.n_e = n
        setattr(n, f, x * getattr(n, f))
        v = getattr(n, f)
        return {**ne, f: j(v.to_value("cm-3") if f == "k" else v)}

    def repeat(self):
        """the same evolution started once more, from what the region holds now"""
        evo, C, cfg, watch = self.made
        return self.go(None, C, cfg, watch, None)

    def session(self):
        self.events.append({"op": "reset", "id": "-"})
        ne = self.start()
        res = self.run(ne)
        if res is not None and self.cfg["again"] != "no":
            if self.cfg["init"] != "default" and self.rng.random() < 0.4:
                self.repeat()
            elif self.cfg["again"] == "continue" and len(res.gamma) > 2:
                self.run(None, again=res)
            elif self.cfg["bounds"] == "none" and self.cfg["init"] == "default":
                self.run(None)
        return self.events


def configurations(ctx, family, n):
    beh, st = tlc.generate("EvolGen", {"Family": '"%s"' % family, "Gen": "TRUE"}, {}, n, len(FIELDS), ctx.seed, ctx.wd)
    ctx.cov["generated_behaviours"] = len(beh)
    ctx.tstates += 0
    return [dict(zip(FIELDS, b)) for b in beh]


BINS = ("longest", "noclip", "nomerge", "nobounds", "edge", "keepleft", "leftplace", "rateplace", "fracplace", "never")


def design(ctx, prop):
    if prop == "C17":
        for heun in ("FALSE", "TRUE"):
            ctx.run_design("GroupModel", {"Groups": str(ctx.n(2, 3)), "Steps": str(ctx.n(2, 2)), "Heun": heun}, {},
                           ("Own", "Whole", "Unit", "NonNeg"),
                           defects=("whole", "order", "stay") + (("twice",) if heun == "TRUE" else ()))
        return
    for lazy in ("TRUE",) if prop in ("C14", "C16") and ctx.quick else ("TRUE", "FALSE"):
        ctx.run_design("EvolModel", {"Total": str(ctx.n(3 if lazy == "TRUE" else 2, 4)), "Lo": "1", "Hi": str(ctx.n(8, 9)), "Creep": "3", "Limit": "2", "Lazy": lazy,
                                     "MaxBins": str(ctx.n(4, 5))}, {},
                       ("Limits", "TimeAccount", "Ordered", "Bounds", "Together", "Sized", "LeftTrue"), constraint="Small",
                       defects=BINS if lazy == "TRUE" else ("longest", "noclip", "nomerge", "nobounds", "edge"),
                       properties=("Ends",) if ctx.quick else ())


def evolve(ctx, prop, n, cap=14):
    design(ctx, prop)
    cfgs = configurations(ctx, FAMILY[prop], n)
    sessions = drv.pmap(lambda i: Evolution(np.random.default_rng([ctx.seed, int(prop[1:]), i]), cfgs[i], cap).session(), len(cfgs))
    if prop == "C14":           # hundreds of steps
        long = [{**c, "steps": "hundreds", "mode": "fixed", "again": "no", "fail": "no", "groups": 0} for c in cfgs[:ctx.n(4, 21)]]
        sessions += drv.pmap(lambda i: Evolution(np.random.default_rng([ctx.seed, 1414, i]), long[i], 400).session(), len(long))
    cl = "{" + ", ".join('"%s"' % c for c in CLAUSES[prop]) + "}"
    ctx.validate(sessions, module="EvolTrace", consts={"Clauses": cl})
    kinds = {}
    for s in sessions:
        for e in s:
            kinds[e["op"]] = kinds.get(e["op"], 0) + 1
    ctx.cov["evolution_events"] = kinds


def C14(ctx):
    evolve(ctx, "C14", ctx.n(150, 2000))


def C15(ctx):
    evolve(ctx, "C15", ctx.n(150, 2000))


def C16(ctx):
    evolve(ctx, "C16", ctx.n(150, 2000))


def C17(ctx):
    evolve(ctx, "C17", ctx.n(150, 2000))


def C18(ctx):
    evolve(ctx, "C18", ctx.n(150, 2000))
