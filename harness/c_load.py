"""C22: loading of flux points."""
import logging, os, shutil, tempfile
import numpy as np
import astropy.units as u
from astropy.table import Table
import drv, tlc
from drv import j
from objs import lu
from agnpy.fit import load_sherpa_flux_points, load_gammapy_flux_points

logging.getLogger("gammapy").setLevel(logging.ERROR)
NAMES = [["Swift-XRT", "Swift", "Swift/XRT", "Swift-XRT-2"], ["MAGIC", "MAGIC1", "magic", "AGIC"], ["Fermi", "Fermi-LAT", "Fermi LAT", "LAT"],
         ["A", "B", "C", "D"], ["z", "y", "x", "w"], ["1", "10", "2", "0"], ["VLBA(BK150)", "VLBA", "VLBA_core(MOJAVE)", "VLBA(MOJAVE)"]]
ERG = u.Unit("erg cm-2 s-1")


class Session:
    def __init__(self, rng):
        self.rng = rng
        self.dir = tempfile.mkdtemp(prefix="agnpy-load-")
        names = NAMES[int(rng.integers(len(NAMES)))]
        self.name = dict(zip("abcd", [names[i] for i in rng.permutation(4)]))
        self.E = np.sort(10 ** rng.uniform(-6, 13, 5))
        while np.min(self.E[1:] / self.E[:-1]) < 1.001:
            self.E = np.sort(10 ** rng.uniform(-6, 13, 5))
        self.dicts = {}
        self.events = [{"op": "reset", "id": "-"}]

    def path(self, p):
        return os.path.join(self.dir, "sed%d.ecsv" % p)

    def write(self, p, rows):
        rng, out = self.rng, []
        for r in rows:
            f = lu(rng, 1e-16, 1e-8)
            out.append({"inst": self.name[r["inst"]], "e": float(self.E[r["e"] - 1]), "f": f, "n": f * lu(rng, 1e-3, 3), "p": f * lu(rng, 1e-3, 3)})
        t = Table()
        cols = {"e_ref": ("e", u.eV), "e2dnde": ("f", ERG), "e2dnde_errn": ("n", ERG), "e2dnde_errp": ("p", ERG)}
        names = list(cols) + ["instrument"]
        for n in [names[i] for i in (rng.permutation(5) if rng.random() < 0.3 else range(5))]:
            if n == "instrument":
                t[n] = [r["inst"] for r in out]
            else:
                t[n] = [r[cols[n][0]] for r in out] * cols[n][1]
        t.meta["SED_TYPE"] = "e2dnde"
        t.write(self.path(p), overwrite=True)
        self.events.append({"op": "write", "id": str(p), "path": str(p), "rows": [{k: (v if k == "inst" else j(v)) for k, v in r.items()} for r in out]})

    def edge(self, rank, low, exact):
        """a limit that leaves exactly the points from (up to) this rank inside"""
        rng, E = self.rng, self.E
        if 1 <= rank <= 5 and exact:
            return float(E[rank - 1])
        if low:
            hi = E[min(rank, 5) - 1] if rank else E[0] * 0.9
            lo = E[rank - 2] if rank >= 2 else hi / 100
            if rank == 6:
                lo, hi = E[4], E[4] * 100
        else:
            lo = E[min(rank, 5) - 1] if rank else E[0] / 100
            hi = E[rank] if rank <= 4 else lo * 100
        return float(10 ** (np.log10(lo) + rng.uniform(0.01, 0.99) * (np.log10(hi) - np.log10(lo))))

    def load(self, p, back, s, listed, lo, hi):
        rng = self.rng
        if s not in self.dicts:
            d = {self.name[x]: float(rng.uniform(0.01, 0.9)) for x in listed}
            for n in list(d):
                k = rng.integers(8)
                d[n] = {0: 0.0, 1: 1, 2: np.float64(d[n])}.get(int(k), d[n])
            if rng.random() < 0.5:                       # an instrument that is in no file
                d["nowhere"] = 5.0
            keys = [list(d)[i] for i in rng.permutation(len(d))]
            self.dicts[s] = None if not d and rng.random() < 0.5 else {k: d[k] for k in keys}
        d = self.dicts[s]
        exact = back == "sherpa" and rng.random() < 0.5
        a, b = self.edge(lo, True, exact), self.edge(hi, False, exact)
        un = ["eV"] if exact else ["eV", "keV", "GeV", "TeV", "erg"]
        qa, qb = ((x * u.eV).to(un[int(rng.integers(len(un)))]) for x in (a, b))
        was = dict(d or {})
        before = drv.digest([qa, qb, open(self.path(p), "rb").read()])
        ev = {"op": "load", "id": str(p), "path": str(p), "back": back, "sys": {k: j(v) for k, v in was.items()}, "lo": j(a), "hi": j(b),
              "out": [], "err": "", "same": True, "names": []}
        args = (self.path(p), qa, qb) + (() if d is None and rng.random() < 0.5 else (d,))
        try:
            if back == "sherpa":
                o = load_sherpa_flux_points(*args)
                n = len(o.x)
                mask = np.broadcast_to(np.asarray(o.mask), n)
                syst = np.zeros(n) if o.syserror is None else o.syserror
                ev["out"] = [{"e": j(o.x[i]), "f": j(o.y[i]), "err": j(o.staterror[i]), "sys": j(syst[i]), "in": bool(mask[i])} for i in range(n)]
            else:
                o = load_gammapy_flux_points(*args)
                ev["names"] = [x.name for x in o]
                for x in o:
                    fp = x.data
                    col = lambda q: np.atleast_1d(np.asarray(q.quantity.to_value(ERG)).squeeze())
                    e = fp.energy_ref.to_value("eV")
                    f, n, pp = col(fp.e2dnde), col(fp.e2dnde_errn), col(fp.e2dnde_errp)
                    mask = np.atleast_1d(np.asarray(x.mask_fit.data).squeeze())
                    ev["out"] += [{"inst": x.name, "e": j(e[i]), "f": j(f[i]), "n": j(n[i]), "p": j(pp[i]), "in": bool(mask[i])} for i in range(len(e))]
        except Exception as e:
            ev["err"] = type(e).__name__ + ": " + str(e)[:150]
        ev["same"] = before == drv.digest([qa, qb, open(self.path(p), "rb").read()]) and dict(d or {}) == was
        self.events.append(ev)


def replay(b, rng):
    s = Session(rng)
    try:
        for a in b:
            getattr(s, a[0])(*a[1:])
    finally:
        shutil.rmtree(s.dir, ignore_errors=True)
    return s.events


def C22(ctx):
    ctx.run_design("LoadModel", {"Paths": "1", "Dicts": "1", "Ranks": "2", "Rows": str(ctx.n(2, 3)), "Loads": "2", "Gen": "FALSE", "Depth": "1000"},
                   {"Inst": "Inst2"}, ("Whole", "Systematics", "Range", "Untouched"),
                   defects=("last", "carried", "any", "drop", "open", "detached", "cache", "consume"))
    depth = ctx.n(14, 24)
    beh, _ = tlc.generate("LoadModel", {"Paths": "2", "Dicts": "2", "Ranks": "5", "Rows": "6", "Loads": "1000", "Gen": "TRUE", "Depth": str(depth),
                                        "Defect": '"none"'}, {"Inst": "Inst4"}, ctx.n(60, 800), depth, ctx.seed, ctx.wd, steps=10 * depth)
    ctx.cov["generated_behaviours"] = len(beh)
    ctx.validate(drv.pmap(lambda i: replay(beh[i], np.random.default_rng([ctx.seed, 22, i])), len(beh)), module="LoadTrace")
