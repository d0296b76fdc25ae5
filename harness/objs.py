"""Seeded construction of agnpy objects and their specified parameters."""
import numpy as np
import astropy.units as u
from astropy.constants import m_e, m_p
import drv
from drv import j, jl
from agnpy.spectra import (PowerLaw, BrokenPowerLaw, LogParabola, ExpCutoffPowerLaw,
                           ExpCutoffBrokenPowerLaw, InterpolatedDistribution, EmptyDistribution)
from agnpy.utils.math import trapz_loglog
from scipy.interpolate import CubicSpline, PchipInterpolator

CLS = {c.__name__: c for c in (PowerLaw, BrokenPowerLaw, LogParabola, ExpCutoffPowerLaw,
                               ExpCutoffBrokenPowerLaw, InterpolatedDistribution, EmptyDistribution)}
ANALYTIC = ["PowerLaw", "BrokenPowerLaw", "LogParabola", "ExpCutoffPowerLaw", "ExpCutoffBrokenPowerLaw"]
CM3 = u.Unit("cm-3")
# abstract field -> field of each class
FIELD = {
    "PowerLaw": dict(norm="k", idx1="p", idx2="p", brk="p", lo="gamma_min", hi="gamma_max"),
    "BrokenPowerLaw": dict(norm="k", idx1="p1", idx2="p2", brk="gamma_b", lo="gamma_min", hi="gamma_max"),
    "LogParabola": dict(norm="k", idx1="p", idx2="q", brk="gamma_0", lo="gamma_min", hi="gamma_max"),
    "ExpCutoffPowerLaw": dict(norm="k", idx1="p", idx2="p", brk="gamma_c", lo="gamma_min", hi="gamma_max"),
    "ExpCutoffBrokenPowerLaw": dict(norm="k", idx1="p1", idx2="p2", brk="gamma_b", lo="gamma_min", hi="gamma_max"),
    "InterpolatedDistribution": dict(norm="norm", idx1="norm", idx2="norm", brk="norm", lo="gamma_min", hi="gamma_max"),
    "EmptyDistribution": dict(norm="gamma_min", idx1="gamma_min", idx2="gamma_min", brk="gamma_min", lo="gamma_min", hi="gamma_max"),
}
SHAPE = {
    "PowerLaw": ["k", "p", "gamma_min", "gamma_max"],
    "BrokenPowerLaw": ["k", "p1", "p2", "gamma_b", "gamma_min", "gamma_max"],
    "LogParabola": ["k", "p", "q", "gamma_0", "gamma_min", "gamma_max"],
    "ExpCutoffPowerLaw": ["k", "p", "gamma_c", "gamma_min", "gamma_max"],
    "ExpCutoffBrokenPowerLaw": ["k", "p1", "p2", "gamma_c", "gamma_b", "gamma_min", "gamma_max"],
}


def lu(rng, a, b):
    """log-uniform"""
    return float(10 ** rng.uniform(np.log10(a), np.log10(b)))


def as_unit(rng, x, units):
    """a quantity worth x in units[0], expressed in one of the units"""
    un = units[int(rng.integers(len(units)))]
    return (x * u.Unit(units[0])).to(un)


def number(rng, x):
    """the same number in one of Python's disguises"""
    if float(x) == int(x) and rng.random() < 0.7:
        return [int(x), np.int64(int(x)), float(x)][int(rng.integers(3))]
    return [float(x), np.float64(x), float(x)][int(rng.integers(3))]


NEAR = [0.25]


def jolt(rng, w, name=None):
    """assign something new to one of the objects of a session, most often to one the object `name` is made of"""
    near, NEAR[0] = NEAR[0], 0.6
    try:
        m = {k: x for k, x in w.items() if hasattr(x, "fields") and x.ok}
        p = m.get(name)
        own = [x for x in [p, getattr(p, "blob", None), getattr(p, "t", None)] if x is not None and hasattr(x, "fields") and x.ok]
        own += [x for b in own for x in getattr(b, "refs", {}).values() if x is not None and hasattr(x, "fields") and x.ok]
        rest = list(m.values())
        if own or rest:
            x = own[int(rng.integers(len(own)))] if own and rng.random() < 0.8 else rest[int(rng.integers(len(rest)))]
            f, v = x.fields(rng)
            if f is not None:
                x.set(f, v)
    finally:
        NEAR[0] = near


def nearby(rng, x, s=0):
    """a value next to x (None: there is none)"""
    if x is None or isinstance(x, (bool, str)) or rng.random() > NEAR[0]:
        return None
    s = s or [1, -1][int(rng.integers(2))]
    return float(x) * (1 + s * [1e-2, 1e-3, 1e-4, 8e-6][int(rng.integers(4))])


def dist_value(rng, f, small=True):
    """specified value of a parameter (base unit)"""
    if f == "k":
        return lu(rng, 1e-6, 1e6)
    if f in ("p", "p1"):
        return float(rng.choice([2, 1.5, 2.2, rng.uniform(1.2, 3.2)]))
    if f == "p2":
        return float(rng.choice([3, 3.4, rng.uniform(2.2, 4.5)]))
    if f == "q":
        return float(rng.choice([0.1, rng.uniform(0.02, 0.6)]))
    if f == "gamma_min":
        return float(rng.choice([1, 2, 10, 50.5, lu(rng, 1.2, 90)]))
    if f == "gamma_max":
        return float(rng.choice([1e5, 3e6, lu(rng, 3e4, 3e7)]))
    if f in ("gamma_b", "gamma_0"):
        return float(rng.choice([lu(rng, 200, 2e4), lu(rng, 200, 2e4), lu(rng, 2, 50), lu(rng, 1e5, 1e7)]))
    if f == "gamma_c":
        return lu(rng, 1e3, 1e6)
    if f == "norm":
        return lu(rng, 0.1, 10)
    raise KeyError(f)


def dist_arg(rng, f, x):
    return as_unit(rng, x, ["cm-3", "m-3", "cm-3", "l-1"]) if f == "k" else number(rng, x)


def interp_data(rng):
    n = int(rng.choice([4, 5, 8, 30]))
    g = np.sort(10 ** rng.uniform(np.log10(2), np.log10(3e6), n))
    while np.any(np.diff(np.log10(g)) < 0.02):
        g = np.sort(10 ** rng.uniform(np.log10(2), np.log10(3e6), n))
    g[0], g[1] = min(g[0], 30.0), max(g[1], 40.0) if g[1] < 40.0 else g[1]
    g[-1] = max(g[-1], 2e5)
    g = np.sort(g)
    nn = 10 ** rng.uniform(-3, 3) * g ** (-rng.uniform(1.5, 2.8)) * 10 ** rng.uniform(-0.3, 0.3, n)
    if rng.random() < 0.25:             # strongly cut off or extremely dilute
        nn = nn * (np.exp(-g / lu(rng, g[-1] / 80, g[-1])) if rng.random() < 0.5 else lu(rng, 1e-45, 1e-20))
    if rng.random() < 0.4:
        for k in ([0], [0, n - 1], [n - 1])[int(rng.integers(3))]:
            nn[k] = 0.0
    if (nn != 0).sum() < 3:
        nn[nn == 0] = nn.max() * 1e-9
    return g, nn


class Dist:
    """a distribution in a session: its recorded parameters and values per version"""

    def __init__(self, rec, rng, id, cls, mass="e", explicit=None, like=None):
        """like: another one, whose parameters this one has at first too"""
        cls = like.cls if like else cls
        self.rec, self.rng, self.id, self.cls = rec, rng, id, cls
        self.table = {}
        par, kw = {}, {}
        rule = "loglog" if rng.random() < 0.3 else "trapz"
        if like:
            par, kw = dict(like.par), dict(like.kw)
            late = {f: x for f, x in like.cur.items() if cls not in SHAPE and f != "norm"}
            for f, x in like.cur.items():
                if f not in late:
                    kw[f], par[f] = x, j(x.to_value("cm-3") if f == "k" else x)
            if cls == "InterpolatedDistribution":
                self.gin, self.nin = like.gin, like.nin
        elif cls in SHAPE:
            for f in SHAPE[cls]:
                if explicit or rng.random() < 0.85:
                    x = (explicit or {}).get(f, dist_value(rng, f))
                    par[f] = j(x)
                    kw[f] = dist_arg(rng, f, x)
                    par[f] = j(kw[f].to_value("cm-3") if f == "k" else kw[f])
            if rule == "loglog":
                kw["integrator"] = trapz_loglog
            if mass == "p" or rng.random() < 0.3:
                kw["mass"] = m_p if mass == "p" else m_e
            par["mass"], par["rule"] = mass, rule
        elif cls == "InterpolatedDistribution":
            g, n = interp_data(rng)
            self.gin, self.nin = g, n
            par = {"gin": jl(g), "nin": jl(n), "mass": mass, "rule": rule}
            kw = {"gamma": g, "n": n * CM3}
            kw["mass"] = m_p if mass == "p" else m_e
            if rng.random() < 0.4:
                kw["interpolator"], par["interp"] = PchipInterpolator, "pchip"
            if rng.random() < 0.5:
                kw["norm"] = lu(rng, 0.1, 10)
                par["norm"] = j(kw["norm"])
            if rule == "loglog":
                kw["integrator"] = trapz_loglog
        else:
            par = {}
            if rng.random() < 0.7:
                kw = {"gamma_min": 2.0, "gamma_max": 1e6}
                par = {k: j(v) for k, v in kw.items()}
        self.kw, self.cur, self.par = kw, {}, dict(par)
        self.ok = rec.new(id, cls, par, lambda: CLS[cls](**kw))
        for f, x in (late.items() if like and self.ok else ()):
            self.cur[f] = x
            rec.set(id, f, j(x), lambda: setattr(self.o, f, x))

    def twin(self):
        """an independent distribution with the same parameters, built at once"""
        d = CLS[self.cls](**self.kw)
        for f, x in self.cur.items():
            setattr(d, f, x)
        return d

    @property
    def o(self):
        return self.rec.objs[self.id]

    def value(self, f, v):
        key = (f, v)
        if key not in self.table:
            old = self.cur.get(f, self.kw.get(f)) if self.cls != "EmptyDistribution" else None
            old = old.to_value("cm-3") if isinstance(old, u.Quantity) else old
            x = nearby(self.rng, old, {"gamma_min": 1, "gamma_max": -1}.get(f, 0))
            if x is not None:
                pass
            elif self.cls == "InterpolatedDistribution" and f in ("gamma_min", "gamma_max"):
                ok = self.gin[self.nin != 0]
                a, b = np.log10(ok[0]), np.log10(ok[-1])
                t = self.rng.uniform(0.02, 0.3)
                x = 10 ** (a + t * (b - a)) if f == "gamma_min" else 10 ** (b - t * (b - a))
            elif self.cls == "EmptyDistribution":
                x = 3.0 + len(self.table) if f == "gamma_min" else 1e6 + len(self.table)
            else:
                x = dist_value(self.rng, f)
            self.table[key] = dist_arg(self.rng, f, x)
        return self.table[key]

    def fields(self, rng):
        return ["norm", "idx1", "idx2", "brk", "lo", "hi"][int(rng.integers(6))], ("jolt", len(self.table))

    def set(self, af, v):
        f = FIELD[self.cls][af]
        arg = self.value(f, v)
        x = arg.to_value("cm-3") if f == "k" else arg
        self.cur[f] = arg
        self.rec.set(self.id, f, j(x), lambda: setattr(self.o, f, arg))


# ---------------------------------------------------------------- regions
from agnpy.emission_regions import Blob
from astropy.coordinates import Distance

LEN = ["cm", "pc", "m", "AU", "lyr", "km"]
MAG = ["G", "mG", "uG", "T", "nT"]
ATTR = {"ge": "gamma_e_size", "gp": "gamma_p_size", "dL": "d_L"}
BASE = {"R_b": "cm", "B": "G", "dL": "cm"}
SIZES = [12, 24, 60]
COSMO = []


def cosmology(rng):
    from astropy.cosmology import FlatLambdaCDM
    if not COSMO:
        COSMO.append(FlatLambdaCDM(H0=70, Om0=0.3))
    return COSMO[0]


class BlobObj:
    turned = None

    def __init__(self, rec, rng, id, n_e=None, n_p=None, sizes=SIZES, explicit=None, gmax=60.0):
        """n_e, n_p: Dist wrappers (None: made by default)"""
        self.rec, self.rng, self.id, self.table, self.sizes, self.gmax = rec, rng, id, {}, sizes, gmax
        par, kw = {}, {}
        for f in ("R_b", "z", "delta_D", "Gamma", "B", "xi"):
            if rng.random() < 0.85 or f in (explicit or {}):
                kw[f] = self.arg(f, (explicit or {}).get(f, self.pick(f)))
                par[f] = self.spec(f, kw[f])
        kw["gamma_e_size"] = par["ge"] = int(rng.choice(sizes))
        if n_p is not None:
            kw["gamma_p_size"] = par["gp"] = int(rng.choice(sizes))
            kw["n_p"], par["n_p"] = n_p.o, n_p.id
        if n_e is not None:
            kw["n_e"], par["n_e"] = n_e.o, n_e.id
        z, cosmo = kw.get("z", 0.069), None
        if rng.random() < 0.3:
            cosmo = kw["cosmology"] = cosmology(rng)
        dL = Distance(z=z, cosmology=cosmo).to_value("cm")
        self.kw, self.cur, self.refs = kw, {}, {"n_e": n_e, "n_p": n_p}
        self.ok = rec.new(id, "Blob", par, lambda: Blob(**kw), dL=j(dL))
        if self.ok and n_e is None:
            rec.objs[id + ".default"] = rec.objs[id].n_e

    @property
    def o(self):
        return self.rec.objs[self.id]

    def pick(self, f):
        rng = self.rng
        if f == "R_b":
            return lu(rng, 1e14, 1e18)
        if f == "z":
            return float(rng.choice([0.069, 0.5, 1, lu(rng, 0.01, 3)]))
        if f == "delta_D":
            return float(rng.choice([10, 1, rng.uniform(0.6, 19)]))
        if f == "Gamma":
            return float(rng.choice([10, 20, rng.uniform(10, self.gmax)]))
        if f == "B":
            return lu(rng, 1e-3, 1e2)
        if f == "xi":
            return float(rng.choice([1, lu(rng, 1e-6, 1), lu(rng, 1e-6, 1), lu(rng, 1, 30)]))
        if f == "dL":
            return lu(rng, 1e26, 3e28)
        return int(rng.choice(self.sizes))

    def arg(self, f, x):
        if f == "R_b":
            return as_unit(self.rng, x, LEN)
        if f == "B":
            return as_unit(self.rng, x, MAG)
        if f == "dL":
            return as_unit(self.rng, x, ["cm", "Mpc", "Gpc", "m"])
        if f in ("ge", "gp"):
            return int(x)
        return number(self.rng, x)

    def spec(self, f, arg):
        return j(arg.to_value(BASE[f]) if f in BASE else arg)

    def twin(self):
        """an independent region with the same parameters and distributions, built at once"""
        kw = {k: v for k, v in self.kw.items() if k not in ("n_e", "n_p")}
        late = {k: v for k, v in self.cur.items() if k not in kw or k in ("z",)}
        kw.update({k: v for k, v in self.cur.items() if k not in late})
        for f in ("n_e", "n_p"):
            if self.refs[f] is not None:
                kw[f] = self.refs[f].twin()
        b = Blob(**kw)
        for f, x in late.items():
            setattr(b, f, x)
        return b

    def fields(self, rng):
        return ["R_b", "z", "delta_D", "Gamma", "B", "xi", "dL"][int(rng.integers(7))], ("jolt", len(self.table))

    def set(self, f, v):
        if (f, v) not in self.table:
            old = self.cur.get(ATTR.get(f, f), self.kw.get(f))
            old = old.to_value(BASE[f]) if f in BASE and old is not None else old
            x = None if f in ("ge", "gp") else nearby(self.rng, old, {"xi": -1}.get(f, 1))
            if x is None or (f == "delta_D" and x > 19.2):
                x = self.pick(f)
            self.table[(f, v)] = self.arg(f, x)
        arg = self.table[(f, v)]
        self.cur[ATTR.get(f, f)] = arg
        self.rec.set(self.id, f, self.spec(f, arg), lambda: setattr(self.o, ATTR.get(f, f), arg))

    def attach(self, f, d):
        """replace a distribution (d: Dist wrapper, or None)"""
        self.refs[f] = d
        self.rec.set(self.id, f, d.id if d else "none", lambda: setattr(self.o, f, d.o if d else None))

    def doppler(self, v):
        rng = self.rng
        if ("dop", v) not in self.table:
            G = number(rng, float(rng.choice([10, rng.uniform(2, 50)])))
            th = as_unit(rng, rng.uniform(0.4, 25.0), ["deg", "rad", "arcmin", "mrad", "arcsec"])
            self.table[("dop", v)] = (G, th)
        G, th = self.table[("dop", v)]
        if self.turned and rng.random() < 0.4:      # the same call as the last time
            G, th = self.turned
        self.turned = (G, th)
        ev = {"op": "doppler", "id": self.id, "Gamma": j(G), "theta": j(th.to_value("rad"))}
        try:
            self.o.set_delta_D(G, th)
            self.cur["Gamma"], self.cur["delta_D"] = self.o.Gamma, self.o.delta_D
        except Exception as e:
            ev = {"op": "obs", "id": self.id, "what": "set_delta_D", "a": {}, "res": [],
                  "err": type(e).__name__ + ": " + str(e)[:100]}
        self.rec.events.append(ev)


class Existing(Dist):
    """wrapper of a distribution made by the library itself"""

    def __init__(self, rec, rng, id, cls):
        self.rec, self.rng, self.id, self.cls, self.table, self.ok = rec, rng, id, cls, {}, True
        self.kw, self.cur = {}, {}


class Proc:
    """a radiative process of a region"""

    def __init__(self, rec, rng, id, cls, make, blob, ssa=None, **par):
        self.rec, self.rng, self.id, self.cls = rec, rng, id, cls
        rule = "loglog" if rng.random() < 0.35 else "trapz"
        kw = {} if rule == "trapz" and rng.random() < 0.5 else {"integrator": RULES[rule]}
        p = {"blob": blob.id, "rule": rule, "ssa": False, **par}
        if ssa is not None:
            p["ssa"] = kw["ssa"] = bool(ssa)
        self.ssa, self.rule, self.blob = p["ssa"], rule, blob
        self.ok = blob.ok and rec.new(id, cls, p, lambda: make(blob.o, **kw))

    @property
    def o(self):
        return self.rec.objs[self.id]

    def twin(self):
        kw = {"integrator": RULES[self.rule]}
        if self.cls in ("Synchrotron", "SynchrotronSelfCompton"):
            kw["ssa"] = self.ssa
        return type(self.o)(self.blob.twin(), **kw)

    def fields(self, rng):
        return ["ssa", "rule"][int(rng.integers(2))], 0

    def set(self, f, v):
        if f == "ssa" and self.cls not in ("Synchrotron", "SynchrotronSelfCompton"):
            return
        if f == "ssa":
            self.ssa = not self.ssa
            self.rec.set(self.id, "ssa", self.ssa, lambda: setattr(self.o, "ssa", self.ssa))
        elif f == "rule":
            self.rule = "trapz" if self.rule == "loglog" else "loglog"
            self.rec.set(self.id, "rule", self.rule, lambda: setattr(self.o, "integrator", RULES[self.rule]))

    def attach(self, f, blob):
        self.blob = blob
        self.rec.set(self.id, "blob", blob.id, lambda: setattr(self.o, "blob", blob.o))


RULES = {"trapz": np.trapezoid if not hasattr(np, "trapz") else np.trapz, "loglog": trapz_loglog}


@drv.argument
def freqs(rng, lo, hi, n=None, bulk=0.0):
    """a frequency array as a user would pass it: (Quantity, list of Hz); sometimes a long one, of which a few are judged"""
    long = rng.random() < bulk
    n = int(rng.choice([64, 100, 101, 128, 200, 257, 333])) if long else n or int(rng.choice([1, 2, 3, 5, 8, 20], p=[0.15, 0.15, 0.3, 0.25, 0.1, 0.05]))
    x = 10 ** rng.uniform(np.log10(lo), np.log10(hi), n)
    if rng.random() < 0.5:
        x = np.sort(x)
    if n > 2 and rng.random() < 0.2:
        x[1] = x[-1]
    if rng.random() < 0.15 and x.max() < 9e18:
        x = np.maximum(np.round(x), 1).astype(np.int64)
    q = x * u.Hz
    if rng.random() < 0.35:
        q = q.to(["GHz", "THz", "kHz"][int(rng.integers(3))])
    if rng.random() < 0.2:
        q.value.setflags(write=False)
    l = jl(q.to_value("Hz"))
    return q, drv.Picked.some(rng, l) if long else l
