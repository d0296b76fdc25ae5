"""C12: absorption on the extragalactic background light."""
import numpy as np
import astropy.units as u
from astropy.io import fits
import tlc, drv
from drv import j, jl
from objs import lu, number
from c_dist import design, behaviours
from agnpy.absorption import EBL, ebl_files_dict

MODELS = ["franceschini_2008", "franceschini_2017", "dominguez_2011", "finke_2010", "saldana_lopez_2021"]
TABLES = {}


def table(m):
    """energies (keV), redshifts and absorptions of a model, read from its file"""
    if m not in TABLES:
        with fits.open(ebl_files_dict[m]) as f:
            e = np.sqrt(np.array(f["ENERGIES"].data["ENERG_LO"], float) * np.array(f["ENERGIES"].data["ENERG_HI"], float))
            z = np.array(f["SPECTRA"].data["PARAMVAL"], float)
            v = np.array(f["SPECTRA"].data["INTPSPEC"], float)
        z, i = np.unique(z, return_index=True)          # the first of repeated redshifts
        TABLES[m] = e, z, v[i]
    return TABLES[m]


def cell(xs, x):
    if not xs[0] <= x <= xs[-1]:
        return 0
    return int(min(np.searchsorted(xs, x, side="right"), len(xs) - 1))


def query(m, e, z):
    E, Z, V = table(m)
    i, k = cell(E, e), cell(Z, z)
    v = [V[k - 1, i - 1], V[k, i - 1], V[k - 1, i], V[k, i]] if i and k else []
    return {"e": j(e), "z": j(z), "i": i, "j": k, "v": jl(v)}


same = drv.argument(lambda q: q)


class Model:
    def __init__(self, rec, rng, id):
        self.rec, self.rng, self.id, self.ok, self.m = rec, rng, id, True, None
        self.build(int(rng.integers(len(MODELS))))

    def build(self, k):
        self.m = MODELS[k]
        E, Z, V = table(self.m)
        kw = {} if self.m == "dominguez_2011" and self.rng.random() < 0.5 else {"model": self.m}
        ax = MODELS.index(self.m)
        self.ok = self.rec.new(self.id, "EBL", {"model": self.m, "table": "t%d" % ax}, lambda: EBL(**kw))

    def set(self, f, v):
        self.build((MODELS.index(self.m) + 1 + v) % len(MODELS))

    @property
    def o(self):
        return self.rec.objs[self.id]

    def look(self, what, k):
        rng, rec = self.rng, self.rec
        E, Z, V = table(self.m)
        n = int(rng.integers(1, 8)) if rng.random() < 0.9 else int(rng.choice([50, 100, 201]))
        ei = rng.integers(0, len(E), n)
        zi = int(rng.integers(0, len(Z)))
        inner = lambda: 10 ** rng.uniform(np.log10(E[0] * 1.001), np.log10(E[-1] * 0.999), n)
        z = Z[zi]
        if what == "node":
            ei = rng.integers(1, len(E) - 1, n)
            e = E[ei]
            z = Z[max(1, min(zi, len(Z) - 2))]
        elif what == "inside":
            e, z = inner(), rng.uniform(Z[0], Z[-1])
        elif what == "edge":
            e = np.where(rng.random(n) < 0.5, E[0] * (1 + 3e-6), E[-1] * (1 - 3e-6))
            z = [Z[0] + 1e-7, Z[-1] - 1e-6][int(rng.integers(2))]
        else:
            e, z = inner(), rng.uniform(Z[0], Z[-1])
            t = rng.random()
            if t < 0.3:
                e[int(rng.integers(n))] = E[0] * (1 - lu(rng, 1e-4, 0.9))
            elif t < 0.6:
                e[int(rng.integers(n))] = E[-1] * (1 + lu(rng, 1e-4, 10))
            elif t < 0.8:
                z = Z[-1] + lu(rng, 1e-4, 10)
            else:
                z = Z[0] - lu(rng, 1e-4, 1e-2)
        if rng.random() < 0.2 and Z[-1] > 2 and what == "inside":
            z = int(rng.integers(1, 3))
        e = np.array(e, float)
        if rng.random() < 0.5:
            e = np.sort(e)
        un = ["Hz", "eV", "keV", "TeV", "cm", "Hz", "GHz"][int(rng.integers(7))]
        q = (e * u.keV).to(un, equivalencies=u.spectral())
        if rng.random() < 0.1 and what == "inside":      # a quantity of integers
            q = u.Quantity(np.round(e).astype(np.int64), "keV", dtype=np.int64)
        if rng.random() < 0.15:
            q = q[0]
        if what == "inside":
            q = same(q)
        es = np.atleast_1d(q.to_value("keV", equivalencies=u.spectral()))
        z = z if isinstance(z, int) else number(rng, float(z))
        # the nodes are rounded: stay in the cell the specification finds
        zs = [z]
        if what == "inside":                # and at once at a redshift next to it
            near = float(z) * (1 + [1e-2, 1e-3, 1e-4, 8e-6, 1e-7][int(rng.integers(5))])
            if rng.random() < 0.5 and near < Z[-1]:
                zs.append(near)
        for z in zs:
            qs = [query(self.m, float(x), float(z)) for x in es]
            rec.obs(self.id, "absorption", {"q": qs if len(qs) < 9 else drv.Picked.some(rng, qs, 4)},
                    lambda: self.o.absorption(q, z), watch={"nu": q, "model": self.o})


def C12(ctx):
    ctx.run_design("EblModel", {}, {}, ("Nodes", "Bounded", "Linear"), defects=("nearest", "swap", "clamp", "memory"))
    beh = behaviours(ctx, "Ebl", "EblObs", ctx.n(60, 800), 20, 2, 3)
    head = {"op": "tables", "id": "-", "tables": {"t%d" % k: {"e": jl(table(m)[0]), "z": jl(table(m)[1])}
                                                 for k, m in enumerate(MODELS)}}
    sessions = []
    for i, b in enumerate(beh):
        rec = drv.Recorder()
        rng = np.random.default_rng([ctx.seed, 12, i])
        rec.reset()
        w = {n: Model(rec, rng, n) for n in ("m1", "m2")}
        looks = drv.Looks(rng)
        for a in b:
            m = w[a[1]]
            if a[0] == "set":
                m.set(a[2], a[3])
            elif m.ok:
                looks(a[0], lambda: m.look(a[2], a[3]))
        name = ["franceschini", "", "Dominguez_2011", "gilmore_2012", None, 3][i % 6]
        rec.obs("lib", "EBL " + str(name), {}, lambda: EBL(model=name), refused=["ValueError"])
        sessions.append(rec.events)
    # a whole row or column of every table
    rec = drv.Recorder()
    rec.reset()
    rng = np.random.default_rng([ctx.seed, 12])
    for n, m in enumerate(MODELS):
        E, Z, V = table(m)
        rec.new("a%d" % n, "EBL", {"model": m, "table": "t%d" % n}, lambda: EBL(m))
        o = rec.objs["a%d" % n]
        rows = rng.choice(np.arange(1, len(Z) - 1), ctx.n(2, 40), replace=False)
        for k in rows:
            es, z = E[1:-1], float(Z[k])
            rec.obs("a%d" % n, "absorption", {"q": [query(m, float(x), z) for x in es]},
                    lambda: o.absorption(es * u.keV, z))["w"] = len(es)
        for i in rng.choice(np.arange(1, len(E) - 1), ctx.n(2, 10), replace=False):
            for k in rng.choice(np.arange(1, len(Z) - 1), ctx.n(40, 200), replace=False):
                x, z = float(E[i]), float(Z[k])
                rec.obs("a%d" % n, "absorption", {"q": [query(m, x, z)]}, lambda: o.absorption(x * u.keV, z))
    sessions.append(rec.events)
    ctx.validate(sessions, head=[head])
    ctx.assumptions += ["tables are read from the data files of the repository with astropy",
                        "the energy axis is known to single precision (2e-5 of the spread of the neighbouring values)",
                        "of the two rows at redshift 1.001 of franceschini_2008 (the library keeps one) the first is used"]
