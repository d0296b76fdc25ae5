"""C01 densities, C02 normalisations and integrals, C03 self-absorption integrands."""
import numpy as np
import astropy.units as u
from astropy.constants import m_e, m_p
import tlc, drv
from drv import j, jl, val
from objs import *

ALL = list(CLS)
SMALL = dict(Kind="SmallKind", Fields="SmallFields", Refs="SmallRefs", Init0="SmallInit", ObsOf="SmallObs")
SMALLC = dict(Variants=1, V=2, Doppler='{"a"}', Depth=0, Gen=False)
DEFECTS = ["staleCache", "copyOnAttach", "sharedDefault", "evalMutates", "jointPartial"]


def design(ctx):
    ctx.run_design("Families", SMALLC, SMALL, ("Fresh", "Pure"), defects=DEFECTS)


def behaviours(ctx, fam, obs, n, depth, variants=8, V=3, doppler="{}"):
    c = dict(Variants=variants, V=V, Doppler=doppler, Depth=depth, Gen=True, Defect='"none"')
    s = {"Kind": fam + "Kind", "Fields": fam + "Fields", "Refs": fam + "Refs", "Init0": fam + "Init", "ObsOf": obs}
    beh, st = tlc.generate("Families", c, s, n, depth, ctx.seed, ctx.wd)
    ctx.cov["behaviours_generated"] = ctx.cov.get("behaviours_generated", 0) + len(beh)
    return beh


def limits(o):
    return float(o.gamma_min), float(o.gamma_max)


def points(rng, o, n, outside=True):
    lo, hi = limits(o)
    hi = min(hi, 1e9)
    g = 10 ** rng.uniform(np.log10(lo), np.log10(hi), n)
    if outside and n > 2:
        m = max(1, n // 5)
        for k in range(m):
            g[k] = lo * rng.uniform(0.3, 0.99) if k % 2 else hi * rng.uniform(1.01, 3)
        rng.shuffle(g)
    return g


@drv.argument
def container(rng, o, k):
    """argument of an evaluation in container variant k"""
    lo, hi = limits(o)
    hi = min(hi, 1e9)
    if k == 1:
        x = [lo, hi, np.nextafter(lo, 0), np.nextafter(hi, 1e30), lo * (1 - 3e-11), hi * (1 + 3e-11),
             10 ** rng.uniform(np.log10(lo), np.log10(hi))][int(rng.integers(7))]
        return float(x)
    if k == 2:
        x = int(rng.integers(int(lo) + 1, min(int(hi) - 1, 10 ** 6)))
        return [x, np.int64(x), np.int32(x), float(x)][int(rng.integers(4))]
    if k == 3:
        x = 10 ** rng.uniform(np.log10(lo), np.log10(hi))
        return [np.float64(x), np.array(x), np.array(int(x) + 1)][int(rng.integers(3))]
    if k == 4:
        x = [lo, hi, lo * (1 - 3e-11), hi * (1 + 3e-11), lo * (1 - 1e-9), hi * (1 + 1e-9),
             10 ** rng.uniform(np.log10(lo), np.log10(hi))][int(rng.integers(7))]
        return np.array([x]).reshape([(1,), (1, 1), (1, 1, 1)][int(rng.integers(3))])
    if k == 5:
        g = points(rng, o, 9)
        g[3], g[5] = lo, hi
        g = g[::-1] if rng.random() < 0.3 else g          # views are arrays too
        if rng.random() < 0.3:
            g = np.repeat(g, 2)[::2]
        if rng.random() < 0.3:
            g.setflags(write=False)
        return g
    if k == 6:
        n = int(rng.integers(1, 7))
        g = rng.integers(int(lo) - 1 if lo > 2 else 1, min(int(hi) + 10, 10 ** 6), n)
        return g.astype([np.int64, np.int32][int(rng.integers(2))])
    if k == 7:
        g = points(rng, o, 12)
        return g.reshape([(12, 1), (3, 4), (12, 1, 1), (2, 2, 3), (1, 12)][int(rng.integers(5))])
    if rng.random() < 0.15:     # a long array
        g = points(rng, o, int(rng.choice([200, 201, 1000, 1024, 2500])))
        return np.sort(g) if rng.random() < 0.5 else g
    g = np.sort(points(rng, o, 7, outside=False))
    dl = [0, 2e-16, 3e-11, 3e-10, 1e-6][int(rng.integers(5))]
    du = [0, 2e-16, 3e-11, 3e-10, 1e-6][int(rng.integers(5))]
    g[0], g[-1] = lo * (1 - dl), hi * (1 + du)
    if rng.random() < 0.5:       # near misses in the middle do not count
        g[2], g[3] = lo * (1 - 3e-11), hi * (1 + 3e-11)
    if rng.random() < 0.2:       # the rule is positional: swapped ends
        g[0], g[-1] = hi * (1 + 3e-11), lo * (1 - 3e-11)
    if rng.random() < 0.3:
        g = g.reshape(7, 1, 1)
    return g


def start(ctx, rec, rng, i, classes, mass=None):
    rec.reset()
    ds = {}
    for n, id in enumerate(("d1", "d2")):
        cls = classes[(i + 3 * n) % len(classes)]
        m = mass or ("p" if rng.random() < 0.3 and cls != "EmptyDistribution" else "e")
        ds[id] = Dist(rec, rng, id, cls, m)
    return ds


def run_beh(beh, ds, look, rng):
    looks = drv.Looks(rng)
    for a in beh:
        looks.jolt = lambda: jolt(rng, ds, a[1])
        if not ds[a[1]].ok:          # construction failed: already reported
            continue
        if a[0] == "set":
            ds[a[1]].set(a[2], a[3])
        else:
            looks(a[0], lambda: look(ds[a[1]], a[2], a[3]))


def foreign(rng, d):
    """parameters for a class-level evaluation: (specified, given)"""
    if d.cls == "EmptyDistribution":
        return {}, []
    if d.cls == "InterpolatedDistribution":
        g = d.gin[d.nin != 0]
        lo, hi = np.sort(10 ** rng.uniform(np.log10(g[0]), np.log10(g[-1]), 2))
        lo, hi = [(lo, hi), (float(g[0]), hi), (lo, float(g[-1]))][int(rng.integers(3))]
        norm = lu(rng, 0.1, 10)
        return {"norm": j(norm), "gamma_min": j(lo), "gamma_max": j(hi)}, [norm, lo, hi]
    spec, args = {}, []
    for f in SHAPE[d.cls]:
        x = dist_arg(rng, f, dist_value(rng, f))
        args.append(x)
        spec[f] = j(x.to_value("cm-3") if f == "k" else x)
    return spec, args


def near_ends(rng, spec, g):
    """sometimes an array whose ends lie on the limits named in the call, but for rounding"""
    if "gamma_min" not in spec or rng.random() < 0.5:
        return g
    lo, hi = float(spec["gamma_min"]), float(spec["gamma_max"])
    e = [0, 2e-16, 3e-11, 3e-10]
    return np.array([lo * (1 - e[int(rng.integers(4))]), np.sqrt(lo * hi), hi * (1 + e[int(rng.integers(4))])])


def dens_obs(rec, d, g, what="dens", fn=None, given=None):
    o = d.o
    arr = np.asarray(g)
    a = {"nd": int(arr.ndim), "g": jl(arr) if arr.size < 99 else drv.Picked.some(np.random.default_rng(arr.size), jl(arr), 8)}
    if given is not None:
        a["with"] = given

    def conv(r):
        if np.shape(r) != arr.shape:
            raise ValueError("shape %s for an argument of shape %s" % (np.shape(r), arr.shape))
        return val(r, "cm-3")
    rec.obs(d.id, what, a, fn or (lambda: o(g)), watch={"argument": g, "self": o}, conv=conv)


def C01(ctx):
    design(ctx)
    n = ctx.n(160, 1200)
    beh = behaviours(ctx, "Dist", "DensObs", n, 16)
    sessions = []
    for i, b in enumerate(beh):
        rec = drv.Recorder()
        rng = np.random.default_rng([ctx.seed, 1, i])
        ds = start(ctx, rec, rng, i, ALL)

        def look(d, what, k):
            g = container(rng, d.o, k)
            dens_obs(rec, d, g)
            if k in (2, 4, 5, 6, 7, 8):                 # the class-level evaluation, explicit parameters
                o = d.o
                if rng.random() < 0.3 and d.cls in SHAPE:
                    dens_obs(rec, d, g, fn=lambda: o.evaluate(g, *o.parameters))
                else:
                    spec, args = foreign(rng, d)
                    g = near_ends(rng, spec, g)
                    dens_obs(rec, d, g, fn=lambda: (o if d.cls not in SHAPE else CLS[d.cls]).evaluate(g, *args), given=spec)
            if k == 5:                                  # element by element == all at once
                for x in np.asarray(g)[:3]:
                    dens_obs(rec, d, float(x))
        run_beh(b, ds, look, rng)
        sessions.append(rec.events)
    ctx.validate(sessions)
    ctx.assumptions += ["densities compared with relative tolerance 1e-9",
                        "Lorentz factors and parameters within the supported ranges of agnpy's documentation"]


def C03(ctx):
    design(ctx)
    beh = behaviours(ctx, "Dist", "SsaObs", ctx.n(160, 1200), 16)
    sessions = []
    classes = [c for c in ALL if c != "EmptyDistribution"]
    for i, b in enumerate(beh):
        rec = drv.Recorder()
        rng = np.random.default_rng([ctx.seed, 3, i])
        ds = start(ctx, rec, rng, i, classes)

        def look(d, what, k):
            g = container(rng, d.o, k)
            o = d.o
            dens_obs(rec, d, g, "ssa", lambda: o.SSA_integrand(g))
            if k == 7:
                dens_obs(rec, d, g, "ssa", lambda: o.evaluate_SSA_integrand(g, *o.parameters))
            if k in (2, 4, 5, 6, 8):
                spec, args = foreign(rng, d)
                g = near_ends(rng, spec, g)
                dens_obs(rec, d, g, "ssa", lambda: (o if d.cls not in SHAPE else CLS[d.cls]).evaluate_SSA_integrand(g, *args), given=spec)
            if k == 5 and "k" in vars(o):               # linear in the normalisation
                d.set("norm", 1)
                dens_obs(rec, d, g, "ssa", lambda: o.SSA_integrand(g))
        run_beh(b, ds, look, rng)
        sessions.append(rec.events)
    ctx.validate(sessions)
    ctx.assumptions += ["relative tolerance 1e-9 (absolute 1e-11 of n/gamma where the slope cancels)"]


# ------------------------------------------------------------------ C02
VIAS = {"from_total_density": "cm-3", "from_total_energy_density": "erg cm-3",
        "from_total_energy": "erg", "from_density_at_gamma_1": "cm-3"}
UNITS = {"cm-3": ["cm-3", "m-3", "l-1"], "erg cm-3": ["erg cm-3", "J m-3", "GeV cm-3"],
         "erg": ["erg", "J", "GeV"], "cm3": ["cm3", "m3", "pc3"]}


class Normed(Dist):
    """a distribution built by a normalisation constructor"""

    def __init__(self, rec, rng, id, cls, via, mass):
        self.rec, self.rng, self.id, self.cls, self.table, self.cur = rec, rng, id, cls, {}, {}
        par, kw = {"mass": mass, "rule": "trapz"}, {}
        for f in SHAPE[cls][1:]:
            x = dist_value(rng, f)
            if via == "from_density_at_gamma_1" and f == "gamma_min":
                x = 1
            kw[f] = number(rng, x)
            par[f] = j(kw[f])
        if rng.random() < 0.35 and via != "from_density_at_gamma_1":
            kw["integrator"], par["rule"] = trapz_loglog, "loglog"
        unit = VIAS[via]
        tot = {"cm-3": lu(rng, 1e-5, 1e5), "erg cm-3": lu(rng, 1e-6, 1e3), "erg": lu(rng, 1e40, 1e52)}[unit]
        q = as_unit(rng, tot, UNITS[unit])
        self.tot = q.to_value(unit)
        extra, args = {"via": via, "tot": j(self.tot)}, [q]
        if via == "from_total_energy":
            V = as_unit(rng, lu(rng, 1e44, 1e54), UNITS["cm3"])
            self.V = V.to_value("cm3")
            extra["V"] = j(self.V)
            args.append(V)
        self.via = via
        m = m_p if mass == "p" else m_e
        self.kw = kw
        before = drv.digest(kw)
        self.ok = rec.new(id, cls, par, lambda: getattr(CLS[cls], via)(*args, m, **kw), **extra)


def C02(ctx):
    design(ctx)
    beh = behaviours(ctx, "Dist", "IntObs", ctx.n(150, 900), 14)
    sessions = []
    vias = list(VIAS)
    for i, b in enumerate(beh):
        rec = drv.Recorder()
        rng = np.random.default_rng([ctx.seed, 2, i])
        rec.reset()
        ds = {}
        mass = ["e", "p"][i % 2]
        via = vias[(i // 2) % 4]
        ds["d1"] = Normed(rec, rng, "d1", ANALYTIC[(i // 3) % 5], via, mass)
        ds["d2"] = Dist(rec, rng, "d2", ALL[i % len(ALL)], "e" if ALL[i % len(ALL)] == "EmptyDistribution" else ["p", "e"][(i // 5) % 2])
        d = ds["d1"]
        if d.ok:
            o = d.o
            for f in SHAPE[d.cls]:
                rec.obs("d1", "par", {"f": f}, lambda: getattr(o, f), unit="cm-3" if f == "k" else None)
            rec.obs("d1", "isproton", {}, lambda: None,
                    conv=lambda _: [1 if o.particle == "protons" and o.mass is m_p else 0, j(o.mc2.to_value("erg"))])
            tot = {"tot": j(d.tot)}
            if via == "from_total_density":
                rec.obs("d1", "total", tot, lambda: o.integrate(), "cm-3")
            elif via == "from_total_energy_density":
                rec.obs("d1", "total", tot, lambda: o.mc2 * o.integrate(gamma_power=1), "erg cm-3")
            elif via == "from_total_energy":
                rec.obs("d1", "total", tot, lambda: d.V * u.Unit("cm3") * o.mc2 * o.integrate(gamma_power=1), "erg")
            else:
                rec.obs("d1", "total", tot, lambda: o(1), "cm-3")

        def look(d, what, k):
            o = d.o
            lo, hi = limits(o)
            hi = min(hi, 1e9)
            if k in (1, 2):
                L, H, kw = None, None, {}
            elif k in (3, 4):
                L = lo * rng.uniform(1.1, 10)
                H = hi * rng.uniform(0.1, 0.9)
                kw = dict(gamma_low=L, gamma_up=H)
            elif k == 5:
                L, H = lo * rng.uniform(1.1, 10), None
                kw = dict(gamma_low=L)
            elif k == 6:
                L, H = None, hi * rng.uniform(0.1, 0.9)
                kw = dict(gamma_up=H)
            elif k == 7:
                L, H = lo * rng.uniform(0.2, 0.9), hi * rng.uniform(1.1, 5)
                kw = dict(gamma_low=L, gamma_up=H)
            else:
                L, H = int(lo) + 1, int(hi) - 1
                kw = dict(gamma_low=L, gamma_up=H)
            pw = [0, 1, 2, -1, 0.5, 3][int(rng.integers(6))]
            if pw or rng.random() < 0.5:
                kw["gamma_power"] = pw
            rec.obs(d.id, "integrate", {"lo": j(L) if L else "null", "hi": j(H) if H else "null", "pow": j(pw)},
                    lambda: o.integrate(**kw), "cm-3", watch={"self": o})
        run_beh(b, ds, look, rng)
        sessions.append(rec.events)
    ctx.validate(sessions)
    ctx.assumptions += ["totals and integrals compared with relative tolerance 1e-7",
                        "all shape parameters are passed to the normalisation constructors (they have no defaults there)",
                        "from_density_at_gamma_1 with gamma_min = 1 (the density at 1 is zero otherwise)"]
