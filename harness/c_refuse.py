"""C19: what agnpy refuses."""
import os, shutil, tempfile
from pathlib import Path
import numpy as np
import astropy.units as u
from astropy.constants import m_e, m_p, m_n
import drv, tlc
from objs import lu, CLS, ANALYTIC, SHAPE, dist_value
from agnpy.spectra import PowerLaw, BrokenPowerLaw, InterpolatedDistribution
from agnpy.emission_regions import Blob
from agnpy.targets import SSDisk, SphericalShellBLR, RingDustTorus, PointSourceBehindJet, lines_dictionary
from agnpy.absorption import Absorption, EBL
from agnpy.fit import SynchrotronSelfComptonModel, ExternalComptonModel
from agnpy.time_evolution.time_evolution import TimeEvolution
from agnpy.utils.conversion import epsilon_equivalency, nu_to_epsilon_prime
from agnpy.utils.validation_utils import clean_and_make_dir

CM3, ERG_S = u.Unit("cm-3"), u.Unit("erg s-1")
MASS = {"m_e": m_e, "m_p": m_p, "m_n": m_n, "float": 9.1093837e-31, "string": "m_e", "none": None, "muon": 1.883531627e-28 * u.kg}
UNKNOWN = ["unknown", "xyz", "Sherpa ", "gamma", "none"]
VECTOR = None


def mass_kw(x):
    return {} if x == "default" else {"mass": MASS[x]}


def dist(rng, cls="PowerLaw", **kw):
    if cls == "InterpolatedDistribution":
        g = np.geomspace(2, 1e5, 8)
        return InterpolatedDistribution(g, g**-2.0 * CM3, **kw)
    p = {f: dist_value(rng, f) for f in SHAPE[cls]}
    p["k"] = p["k"] * CM3
    return CLS[cls](**p, **kw)


def blob(c, rng):
    d = {"float": lu(rng, 1, 50), "int": int(rng.integers(1, 60)), "npint": np.int64(rng.integers(1, 60)), "npfloat": np.float64(lu(rng, 1, 50)),
         "tiny": float(rng.choice([1e-300, 1e-12, 5e-324])), "zero": float(rng.choice([0.0, -0.0])), "intzero": 0,
         "negative": float(rng.choice([-1, -10.0, -1e-300])), "string": str(rng.choice(["10", "", "ten"])), "quantity": 10 * u.Unit(""),
         "none": None, "list": [10], "array": np.array([10.0])}[c["delta_D"]]
    R = {"cm": 1e16 * u.cm, "pc": 0.01 * u.pc, "time": 1 * u.d, "bare": 1e16}[c["R_b"]]
    kw = {"default": {}, "given": {"n_e": PowerLaw()}, "both": {"n_e": PowerLaw(), "n_p": PowerLaw(mass=m_p)}}[c["particles"]]
    return lambda: Blob(R_b=R, delta_D=d, **kw)


def distribution(c, rng):
    cls, via, kw = c["cls"], c["via"], mass_kw(c["mass"])
    if via == "init":
        return lambda: dist(rng, cls, **kw)
    par = {f: dist_value(rng, f) for f in SHAPE[cls] if f != "k"}
    if via == "density_at_1":
        par["gamma_min"] = 1
        return lambda: CLS[cls].from_density_at_gamma_1(1e3 * CM3, **kw, **par)
    if via == "total_density":
        return lambda: CLS[cls].from_total_density(1e3 * CM3, **kw, **par)
    if via == "total_energy_density":
        return lambda: CLS[cls].from_total_energy_density(1e-3 * u.Unit("erg cm-3"), **kw, **par)
    return lambda: CLS[cls].from_total_energy(1e48 * u.erg, 1e50 * u.Unit("cm3"), **kw, **par)


def table(c, rng):
    g = np.geomspace(2, 1e5, 8)
    n = g**-2.0
    q = {"cm-3": n * CM3, "1/cm3": n * u.Unit("1 / cm3"), "m-3": n * u.Unit("m-3"), "cm-2": n * u.Unit("cm-2"), "none": n,
         "scaled": n * u.Unit("1e6 cm-3")}[c["unit"]]
    return lambda: InterpolatedDistribution(g, q, **mass_kw(c["mass"]))


def frequency(c, rng):
    m = {} if c["mass"] == "default" else {"m": MASS[c["mass"]]}
    z = int(c["z"])
    if c["fn"] == "epsilon_equivalency":
        return lambda: epsilon_equivalency(**m)
    return lambda: nu_to_epsilon_prime(np.logspace(10, 20, 3) * u.Hz, z, 10, **m)


def disk(c, rng):
    R = {"cm": lambda k: k * 1e13 * u.cm, "pc": lambda k: k * 1e-5 * u.pc, "time": lambda k: k * u.s, "int": lambda k: int(6 * k), "float": lambda k: 6.5 * k}
    a, b = R[c["R_in"]](1), R[c["R_out"]](100)
    kw = {"default": {}, "no": {"R_g_units": False}, "yes": {"R_g_units": True}}[c["R_g_units"]]
    return lambda: SSDisk(1e8 * u.M_sun, 1e45 * ERG_S, 1 / 12, a, b, **kw)


def blr(c, rng):
    names = sorted(lines_dictionary)
    line = {"Lyalpha": "Lyalpha", "Hbeta": "Hbeta", "any": str(rng.choice(names)), "lower": str(rng.choice(names)).lower() + "", "unknown": str(rng.choice(["Lyomega", "Hzeta", "CV"])),
            "empty": "", "none": None, "wavelength": 1215.67 * u.AA}[c["line"]]
    if c["line"] == "lower" and line in lines_dictionary:
        line = "lyalpha"
    return lambda: SphericalShellBLR(1e45 * ERG_S, 0.1, line, 1e17 * u.cm)


def absorber(c, rng):
    t = {"disk": lambda: SSDisk(1e8 * u.M_sun, 1e45 * ERG_S, 1 / 12, 6, 1000, R_g_units=True),
         "blr": lambda: SphericalShellBLR(1e45 * ERG_S, 0.1, "Lyalpha", 1e17 * u.cm), "dt": lambda: RingDustTorus(1e45 * ERG_S, 0.1, 1000 * u.K),
         "point": lambda: PointSourceBehindJet(1e45 * ERG_S, 1e-5), "blob": lambda: Blob()}[c["target"]]()
    kw = {"given": {"r": lu(rng, 1e16, 1e19) * u.cm}, "none": {"r": None}, "omitted": {}}[c["r"]]
    if c["mu_s"] != "1":
        kw["mu_s"] = 0.9
    return lambda: Absorption(t, **kw)


def ebl(c, rng):
    m = {"franceschini": "franceschini", "upper": "DOMINGUEZ_2011", "unknown": str(rng.choice(["gilmore_2012", "dominguez_2012", "dominguez_2011 "])),
         "empty": "", "none": None}.get(c["model"], c["model"])
    return (lambda: EBL()) if m == "default" else (lambda: EBL(model=m))


def fit(c, rng):
    kw = {} if c["ssa"] == "default" else {"ssa": True}
    b = {"upper": str(rng.choice(["Gammapy", "SHERPA"])), "unknown": str(rng.choice(["naima", "gammapy ", "sherp", "g"])), "none": None, "empty": ""}.get(c["backend"], c["backend"])
    if b != "default":
        kw["backend"] = b
    n = dist(rng)
    return (lambda: SynchrotronSelfComptonModel(n, **kw)) if c["scenario"] == "ssc" else (lambda: ExternalComptonModel(n, ["blr", "dt"], **kw))


def folder(c, rng):
    d = tempfile.mkdtemp(prefix="agnpy-dir-")
    m = {"str": d + "/out", "path": Path(d) / "out", "int": 3, "none": None, "bytes": (d + "/out").encode()}[c["main"]]
    a = (m,) if c["sub"] == "none" else (m, "inner")
    return (lambda: clean_and_make_dir(*a)), lambda: shutil.rmtree(d, ignore_errors=True)


def protons(c, rng):
    b = Blob(n_p=PowerLaw(mass=m_p)) if c["before"] in ("given", "removed", "replaced") else Blob()
    if c["before"] in ("set", "replaced"):
        b.n_p = BrokenPowerLaw(mass=m_p)
    if c["before"] == "removed":
        b.n_p = None
    return lambda: str(b) if c["read"] == "str" else getattr(b, c["read"])


def run(c, rng):
    n = int(rng.integers(5, 20))
    ga = np.geomspace(10, 1e4, n)
    b = Blob(n_e=PowerLaw(k=1e2 * CM3, p=2.1, gamma_min=100 if c["fault"] == "empty" else 2, gamma_max=1e6))
    T = lu(rng, 1e-2, 1e6) * u.s
    dt = T if c["mode"] == "single" else T / 4
    kw = {} if c["mode"] == "auto" else {"step_duration": dt}
    E = lambda a: (a.gamma * m_e.cgs * 2.99792458e10**2 * u.Unit("cm2 s-2")).to("erg")
    E0, E1 = 10 * 8.187e-7 * u.erg, 1e4 * 8.187e-7 * u.erg
    zero = lambda a: 0 * E(a) / u.s
    f = {"slow": lambda a: -1e-3 * E(a) / T, "gamma": lambda a: -2 * E0 / dt * np.ones_like(a.gamma), "cross": lambda a: -0.8 * E(a)**2 / E1 / dt}.get(c["fault"], zero)
    en = {"f": f, "z": zero}
    names, k = ["f"], {}
    if c["fault"] == "leak":
        kw["rel_injection_functions"] = {"r": lambda a: -2 / dt * np.ones_like(a.gamma)}
        names += ["r"]
    if c["fault"] == "empty":
        kw["abs_injection_functions"] = {"a": lambda a: -1e-9 * CM3 / T * np.ones_like(a.gamma)}
        names += ["a"]
    if c["groups"] == "two":
        kw["subgroups"] = [names, ["z"]]
    te = TimeEvolution(b, T, en, initial_gamma_array=ga, **kw)
    return te.evaluate, None, b


def evolution(c, rng):
    b = Blob()
    rate = lambda un: lambda a: np.zeros(np.shape(a.gamma)) * u.Unit(un)
    k = {"distinct": "era", "energy-rel": "eea", "energy-abs": "ere", "rel-abs": "err"}[c["names"]]
    a = [b, 1 * u.s, {k[0]: rate("erg s-1")}]
    kw = {"rel_injection_functions": {k[1]: rate("s-1")}, "abs_injection_functions": {k[2]: rate("cm-3 s-1")}}
    step = {"auto": "auto", "time": 0.5 * u.s, "minutes": 1 * u.min, "zero": 0 * u.s, "negative": -1 * u.s, "length": 1 * u.cm, "number": 1.0,
            "string": str(rng.choice(["fixed", "Auto", "", "1 s"])), "none": None}
    if c["step"] != "default":
        kw["step_duration"] = step[c["step"]]
    if c["lazy"] != "default":
        kw["optimize_recalculating_slow_rates"] = c["lazy"] == "on"
    if c["method"] != "default":
        kw["method"] = {"empty": ""}.get(c["method"], c["method"])
    n = 2 if c["init"] == "two" else int(rng.integers(4, 12))
    g = np.geomspace(10, 1e4, n)
    bounds = (10.0, 1e4) if c["init"] == "touch" else (5, 2e4)
    m = int(rng.integers(0, n - 1))
    if c["init"] == "unsorted":
        g[[m, m + 1]] = g[[m + 1, m]]
    if c["init"] == "falling":
        g = g[::-1].copy()
    if c["init"] == "equal":
        g[m + 1] = g[m]
    if c["init"] == "below":
        g[0] = 5 * float(rng.choice([0.3, 0.999, 1 - 1e-6]))
    if c["init"] == "above":
        g[-1] = 2e4 * float(rng.choice([3, 1.001, 1 + 1e-6]))
    if c["init"] != "none":
        kw["initial_gamma_array"] = g
    if c["bounds"] == "wide":
        kw["gamma_bounds"] = bounds
    G = {"none": None, "one": [list(set(k))], "two": [[k[0]], list({k[1], k[2]})], "unknown": [[k[0], "zz"], [k[1]]], "late": [[k[0]], [k[1], "zz"]]}[c["groups"]]
    if G is not None:
        kw["subgroups"] = G
    if c["dens"] != "none":
        M = len(G) if G else 2
        M = {"rows": M + 1, "row": 1}.get(c["dens"], M)
        N = n + {"long": 1, "short": -1}.get(c["dens"], 0)
        d = rng.dirichlet(np.ones(M), N).T
        if c["dens"] == "near":
            d[0] = d[0] + 5e-7 * rng.uniform(-1, 1, N)
        if c["dens"] == "sum":
            d = d * float(rng.choice([0.5, 1.01, 0.999]))
        if c["dens"] == "bin":
            d[0, int(rng.integers(N))] += float(rng.choice([0.2, 1e-3]))
        if c["dens"] == "even":             # right only on average over the bins
            d[0, [0, 1]] += np.array([1, -1]) * float(rng.choice([0.2, 0.01]))
        kw["subgroups_initial_density"] = d
    return lambda: TimeEvolution(*a, **kw)


MAKE = dict(blob=blob, dist=distribution, table=table, frequency=frequency, disk=disk, blr=blr, absorber=absorber, ebl=ebl, fit=fit, folder=folder,
            protons=protons, run=run, evolution=evolution)


def attempt(c, rng):
    made = MAKE[c["subject"]](c, rng)
    fn, tidy, b = (made if isinstance(made, tuple) else (made,)) + (None, None)[:3 - (len(made) if isinstance(made, tuple) else 1)]
    before = None if b is None else (b.n_e, drv.digest(b))
    got = []
    try:
        fn()
    except Exception as e:
        got = [k.__name__ for k in type(e).__mro__ if k not in (object, BaseException)]
    same = b is None or not got or (b.n_e is before[0] and drv.digest(b) == before[1])
    if tidy:
        tidy()
    return {"op": "try", "id": c["subject"], "c": c, "got": got, "same": bool(same)}


def C19(ctx):
    ctx.run_design("Refuse", {"Reach": str(ctx.n(2, 3)), "Gen": "FALSE"}, {}, ("Right", "Kinded", "Near", "Plain", "Alone"),
                   defects=("doppler", "rows", "lazyheun", "distance", "columns", "protons"))
    rc, out = tlc.tlc("Refuse", tlc.cfg({"Reach": str(ctx.n(2, 3)), "Gen": "TRUE", "Defect": '"none"'}, {}, ("Emit",)), ctx.wd)
    cases = [t[0] for t in tlc.tuples(out, "BEH")]
    cases.sort(key=lambda c: sorted(c.items()))
    reps = ctx.n(3, 4)
    ctx.cov["cases"] = len(cases)
    ctx.cov["generated_behaviours"] = len(cases) * reps

    def one(i):
        return [{"op": "reset", "id": "-", "c": {}}] + [attempt(cases[i], np.random.default_rng([ctx.seed, 19, i, k])) for k in range(reps)]

    ctx.validate(drv.pmap(one, len(cases)), module="RefuseTrace")
