"""Fit models: C20 (evaluation), C21 (parameters), C22 (flux points)."""
import copy
import pickle
import numpy as np
import astropy.units as u
from astropy.constants import c, k_B, G, m_e
from astropy.coordinates import Distance
import drv, tlc
from drv import j, jl
from objs import lu, as_unit, SHAPE, CLS, CM3
from agnpy.spectra import InterpolatedDistribution
from agnpy.emission_regions import Blob
from agnpy.synchrotron import Synchrotron
from agnpy.compton import SynchrotronSelfCompton, ExternalCompton
from agnpy.targets import SSDisk, SphericalShellBLR, RingDustTorus, lines_dictionary
from agnpy.fit import SynchrotronSelfComptonModel, ExternalComptonModel
from scipy.interpolate import PchipInterpolator

LIM = {"log10_k": (-15, 15), "log10_norm": (-3, 3), "log10_gamma_min": (0, 4), "log10_gamma_max": (4, 8), "log10_gamma_b": (2, 6),
       "log10_gamma_0": (2, 6), "log10_gamma_c": (2, 6), "p": (1, 5), "p1": (1, 5), "p2": (1, 5), "q": (0.001, 1), "z": (0.001, 10),
       "delta_D": (1, 100), "log10_B": (-4, 2), "t_var": (10, np.pi * 1e7), "mu_s": (0, 1), "log10_r": (16, 22),
       "log10_L_disk": (42, 48), "M_BH": (1e32, 1e45), "m_dot": (1e24, 1e30), "R_in": (1e12, 1e16), "R_out": (1e12, 1e19),
       "xi_line": (0, 1), "lambda_line": (900, 7000), "R_line": (1e16, 1e18), "xi_dt": (0, 1), "T_dt": (100, 10000), "R_dt": (1e17, 1e20)}
CLAUSES = {"C20": ["driver", "shape", "sum", "argument", "error"],
           "C21": ["names", "value", "limits", "groups", "error"]}
MEC2 = (m_e * c**2).to("erg")
ELECTRONS = np.logspace(1, 9, 200)     # documented default Lorentz factors of the emission of fit models
ELECTRONS_EC = np.logspace(1, 9, 300)


def number(rng, x):
    k = int(rng.integers(6))
    if isinstance(x, int):
        return [x, np.int64(x), np.float64(x)][k % 3]
    return np.float64(x) if k == 0 else x


def pick(rng, name, data=None):
    lo, hi = LIM[name]
    if name == "R_out":
        lo = 1.1e16             # outside any inner radius
    if data is not None and name in ("log10_gamma_min", "log10_gamma_max"):
        lo, hi = (np.log10(data[0] * 1.001), 1.9) if name.endswith("min") else (4, np.log10(data[-1] * 0.999))
        return float(rng.uniform(lo, hi))
    if rng.random() < 0.08 and not name.startswith("R_"):
        return [lo, hi][int(rng.integers(2))]
    if name == "log10_k":
        return float(rng.uniform(-6, 6))
    if name == "log10_gamma_min":
        return float(rng.uniform(0, 2.5))
    if lo > 0 and hi / lo > 50:
        return lu(rng, lo, hi)
    x = float(rng.uniform(lo, hi))
    if rng.random() < 0.15 and np.floor(x) >= lo:
        x = int(np.floor(x))
    return x


def nearby(rng, f, x):
    """a value next to the present one"""
    lo, hi = LIM[f]
    s = {"log10_gamma_min": 1, "log10_gamma_max": -1}.get(f, [1, -1][int(rng.integers(2))])
    return float(min(max(x * (1 + s * [1e-3, 1e-4, 2e-5][int(rng.integers(3))]), lo), hi))


class Model:
    def __init__(self, id, cfg, rng, like=None):
        """like: a model of the same shape, whose distribution is used for this one too"""
        self.id, self.cfg, self.rng = id, cfg, rng
        self.gamma = None
        sh = cfg["shape"]
        if like is not None:
            self.n_e, self.gamma, self.d = like.n_e, like.gamma, like.d
            self.table = getattr(like, "table", None)
        elif sh == "InterpolatedDistribution":
            n = int(rng.choice([6, 12, 30]))
            g = np.geomspace(lu(rng, 2, 40), lu(rng, 2e5, 3e6), n)
            nn = lu(rng, 1e-2, 1e3) * g ** -rng.uniform(1.5, 2.8) * 10 ** rng.uniform(-0.2, 0.2, n)
            kw = {"norm": lu(rng, 0.1, 10)} if rng.random() < 0.5 else {}
            if rng.random() < 0.4:
                kw["interpolator"] = PchipInterpolator
            self.n_e = InterpolatedDistribution(g, nn * CM3, **kw)
            self.gamma, self.table = g, (nn, kw)
            self.d = {"norm": j(kw.get("norm", 1)), "gamma_min": j(g[0]), "gamma_max": j(g[-1])}
        else:
            kw, self.d = {}, {}
            for f in SHAPE[sh]:
                n = "log10_" + f
                x = float(10 ** pick(rng, n)) if n in LIM else float(pick(rng, f))
                kw[f] = as_unit(rng, x, ["cm-3", "m-3", "cm-3"]) if f == "k" else x
                self.d[f] = j(kw[f].to_value("cm-3") if f == "k" else x)
            # keep logarithms inside their limits after rounding
            if rng.random() < 0.5:
                kw["mass"] = m_e
            self.n_e = CLS[sh](**kw)
        self.gammapy = cfg["backend"] == "gammapy"
        t = list(cfg["tgts"])
        if rng.random() < 0.3:
            t = tuple(t)
        k = {"ssa": True} if cfg["ssa"] else ({"ssa": False} if rng.random() < 0.5 else {})
        if not self.gammapy or rng.random() < 0.5:
            k["backend"] = cfg["backend"]
        self.m = SynchrotronSelfComptonModel(self.n_e, **k) if cfg["scen"] == "ssc" else ExternalComptonModel(self.n_e, t, **k)
        self.P = {p["name"]: p["value"] for p in self.pars() if p["name"] != "norm"}

    def all(self):
        return list(self.m.parameters) if self.gammapy else list(self.m.pars)

    def pars(self):
        out = []
        for p in self.all():
            un = str(p.unit) if self.gammapy else str(p.units)
            un = {"g s-1": "g s-1", "g / s": "g s-1"}.get(un, un)
            out.append({"name": p.name, "value": j(p.value if self.gammapy else p.val), "min": j(p.min), "max": j(p.max),
                        "frozen": bool(p.frozen), "unit": un})
        return out

    def assign(self, f, x):
        rng, m = self.rng, self.m
        k = int(rng.integers(4))
        if self.gammapy:
            p = m.parameters[f] if k % 2 else getattr(m, f)
            if k == 3:
                p.quantity = x * p.unit
            else:
                p.value = x
        elif k == 0:
            setattr(m, f, x)
        elif k == 1:
            getattr(m, f).val = x
        elif k == 2:
            [p for p in m.pars if p.name == f][0].val = x
        else:
            getattr(m, f).set(val=x)
        self.P[f] = x

    def duplicate(self):
        """from now on a copy of the model is used, and the original goes its own way"""
        rng, old = self.rng, self.m
        k = int(rng.integers(3))
        if k == 0 and self.gammapy:
            self.m = old.copy()
        elif k == 1:
            self.m = pickle.loads(pickle.dumps(old))
        else:
            self.m = copy.deepcopy(old)
        for f in rng.choice(sorted(self.P), 3, replace=False):
            x = pick(rng, str(f), self.gamma)
            if self.gammapy:
                old.parameters[str(f)].value = x
            else:
                getattr(old, str(f)).val = x

    # ---- the physical parameters, from what was assigned
    def physical(self, over):
        P, cfg = {**self.P, **over}, self.cfg
        ph = {"z": P["z"], "delta_D": P["delta_D"], "B": 10.0 ** P["log10_B"],
              "R_b": c.cgs.value * P["t_var"] * P["delta_D"] / (1 + P["z"])}
        for f in P:
            s = f.replace("log10_", "")
            if s in ("k", "p", "p1", "p2", "q", "gamma_b", "gamma_0", "gamma_c", "gamma_min", "gamma_max", "norm"):
                ph[s] = 10.0 ** P[f] if f != s else P[f]
        if cfg["scen"] == "ec":
            ph.update(mu_s=P["mu_s"], r=10.0 ** P["log10_r"], L_disk=10.0 ** P["log10_L_disk"], M_BH=P["M_BH"], m_dot=P["m_dot"],
                      R_in=P["R_in"], R_out=P["R_out"])
            if "blr" in cfg["tgts"]:
                ph.update(xi_line=P["xi_line"], R_line=P["R_line"],
                          eps_line=((P["lambda_line"] * u.Angstrom).to("erg", equivalencies=u.spectral()) / MEC2).to_value(""))
            if "dt" in cfg["tgts"]:
                ph.update(xi_dt=P["xi_dt"], R_dt=P["R_dt"], T_dt=P["T_dt"],
                          eps_dt=float(2.7 * (k_B * P["T_dt"] * u.K / MEC2).to_value("")))
        return ph

    def components(self, ph, E):
        nu = (E * u.eV).to("Hz", equivalencies=u.spectral())
        sh = self.cfg["shape"]
        if sh == "InterpolatedDistribution":
            # a distribution of its own, with the range of the parameters
            n, a = InterpolatedDistribution(self.gamma, self.table[0] * CM3, **self.table[1]), (ph["norm"], ph["gamma_min"], ph["gamma_max"])
            n.norm, n.gamma_min, n.gamma_max = a
        else:
            n = CLS[sh]
            a = tuple(ph[f] * CM3 if f == "k" else ph[f] for f in SHAPE[sh])
        d_L = Distance(z=ph["z"]).to("cm")
        R_b, B = ph["R_b"] * u.cm, ph["B"] * u.G
        com = (nu, ph["z"], d_L, ph["delta_D"])
        S = lambda x: jl(x.to_value("erg cm-2 s-1"))
        ssa = self.cfg["ssa"]
        out = {"synch": S(Synchrotron.evaluate_sed_flux(*com, B, R_b, n, *a, ssa=ssa, gamma=ELECTRONS)),
               "ssc": S(SynchrotronSelfCompton.evaluate_sed_flux(*com, B, R_b, n, *a, ssa=ssa, gamma=ELECTRONS))}
        if self.cfg["scen"] == "ec":
            L = ph["L_disk"] * u.Unit("erg s-1")
            r = ph["r"] * u.cm
            out["disk"] = S(SSDisk.evaluate_multi_T_bb_norm_sed(nu, ph["z"], L, ph["M_BH"] * u.g, ph["m_dot"] * u.Unit("g s-1"),
                                                                ph["R_in"] * u.cm, ph["R_out"] * u.cm, d_L))
            if "blr" in self.cfg["tgts"]:
                out["ec_blr"] = S(ExternalCompton.evaluate_sed_flux_blr(*com, ph["mu_s"], R_b, L, ph["xi_line"], ph["eps_line"],
                                                                        ph["R_line"] * u.cm, r, n, *a, gamma=ELECTRONS_EC))
            if "dt" in self.cfg["tgts"]:
                out["ec_dt"] = S(ExternalCompton.evaluate_sed_flux_dt(*com, ph["mu_s"], R_b, L, ph["xi_dt"], ph["eps_dt"],
                                                                      ph["R_dt"] * u.cm, r, n, *a, gamma=ELECTRONS_EC))
                out["dt"] = S(RingDustTorus.evaluate_bb_norm_sed(nu, ph["z"], ph["xi_dt"] * L, ph["T_dt"] * u.K, ph["R_dt"] * u.cm, d_L))
        return out

    def evaluate(self, E, over):
        """(values, are they differential fluxes, energies left alone); over: parameters handed over instead of the stored ones"""
        rng, m = self.rng, self.m
        k = int(rng.integers(4))
        if over:
            k = 2 if self.gammapy else 1
        if self.gammapy:
            x = E.copy()
            if k in (1, 3):
                x = x.reshape((len(x), 1) if k == 1 else (len(x), 1, 1))
            q = (x * u.eV).to(["eV", "eV", "keV", "GeV", "TeV"][int(rng.integers(5))])
            before = drv.digest(q)
            if k == 2:
                r = m.evaluate(q, **{p.name: over[p.name] * p.unit if p.name in over else p.quantity for p in m.parameters})
            else:
                r = m(q)
            same = before == drv.digest(q)
            assert r.shape == q.shape, "shape %s" % (r.shape,)
            return jl(r.to_value("cm-2 s-1 eV-1").reshape(-1)), True, same
        x = E.copy() if rng.random() < 0.5 else E
        before = drv.digest(x)
        r = m.calc([over.get(p.name, p.val) for p in m.pars], x) if k == 1 else m(x)
        same = before == drv.digest(x)
        if isinstance(r, u.Quantity):
            r = r.to_value("erg cm-2 s-1")
        return jl(np.asarray(r)), False, same


def region(rng):
    """a region whose parameters lie inside the limits of the fit parameters"""
    z = float(rng.choice([lu(rng, 0.01, 3), 0.5, 1]))
    Gam = float(rng.choice([10, lu(rng, 2, 40)]))
    th = rng.uniform(0.01, 0.3)
    delta = float(1 / (Gam * (1 - np.sqrt(1 - 1 / Gam**2) * np.cos(th))))
    delta = max(delta, 1.01)
    t = lu(rng, 20, 2e7)
    R_b = c.cgs.value * t * delta / (1 + z)
    B = lu(rng, 2e-4, 80)
    r = lu(rng, 2e16, 5e21)
    blob = Blob(R_b=as_unit(rng, R_b, ["cm"]).to(["cm", "pc", "m"][int(rng.integers(3))]), z=z, delta_D=delta, Gamma=Gam,
                B=(B * u.G).to(["G", "mG", "T"][int(rng.integers(3))]))
    return blob, (r * u.cm).to(["cm", "pc"][int(rng.integers(2))]), {"z": j(z), "delta_D": j(delta), "Gamma": j(Gam), "R_b": j(R_b),
                                                                   "B": j(B), "r": j(r)}


def targets(rng, which):
    out, ev = {}, {}
    L, eta = lu(rng, 2e42, 5e47), rng.uniform(0.05, 0.4)
    while not 2e24 < L / (eta * c.cgs.value**2) < 5e29:
        L = lu(rng, 2e42, 5e47)
    M = lu(rng, 1e39, 1e43)
    Rg = (G * (M * u.g) / c**2).to_value("cm")
    R_in, R_out = lu(rng, 2e12, 5e15), lu(rng, 1e16, 5e18)
    Mq = (M * u.g).to(["g", "solMass", "kg"][int(rng.integers(3))])
    Lq = (L * u.Unit("erg s-1")).to(["erg s-1", "W"][int(rng.integers(2))])
    if rng.random() < 0.3 and 1e12 < 6 * Rg < 1e16:
        R_in, R_out = 6 * Rg, min(2e3 * Rg, 5e18)
        disk = SSDisk(Mq, Lq, eta, 6, R_out / Rg, R_g_units=True)
    else:
        disk = SSDisk(Mq, Lq, eta, (R_in * u.cm).to(["cm", "pc"][int(rng.integers(2))]), R_out * u.cm)
    if rng.random() < 0.4:              # radii assigned after construction
        R_in, R_out = lu(rng, 2e12, 5e15), lu(rng, 1e16, 5e18)
        disk.R_in, disk.R_out = (R_in * u.cm).to(["cm", "pc"][int(rng.integers(2))]), R_out * u.cm
    ev["disk"] = {"L": j(L), "M": j(M), "eta": j(eta), "R_in": j(R_in), "R_out": j(R_out)}
    out["disk"] = disk
    if "blr" in which:
        line = str(rng.choice(sorted(k for k in lines_dictionary if 900 < lines_dictionary[k]["lambda"].to_value("Angstrom") < 7000)))
        xi, R = float(rng.uniform(0.01, 1)), lu(rng, 2e16, 9e17)
        out["blr"] = SphericalShellBLR(Lq, xi, line, (R * u.cm).to(["cm", "pc"][int(rng.integers(2))]))
        if rng.random() < 0.4:
            xi, R = float(rng.uniform(0.01, 1)), lu(rng, 2e16, 9e17)
            out["blr"].xi_line, out["blr"].R_line = xi, (R * u.cm).to(["cm", "pc"][int(rng.integers(2))])
        if rng.random() < 0.3:
            out["blr"].lambda_line = out["blr"].lambda_line.to(["nm", "um"][int(rng.integers(2))])
        ev["blr"] = {"xi": j(xi), "lambda": j(lines_dictionary[line]["lambda"].to_value("Angstrom")), "R": j(R)}
    if "dt" in which:
        xi, T, R = float(rng.uniform(0.01, 1)), lu(rng, 150, 8000), lu(rng, 2e17, 8e19)
        out["dt"] = RingDustTorus(Lq, xi, as_unit(rng, T, ["K", "kK", "mK", "K"]), (R * u.cm).to(["cm", "pc"][int(rng.integers(2))]))
        if rng.random() < 0.4:
            xi, T, R = float(rng.uniform(0.01, 1)), lu(rng, 150, 8000), lu(rng, 2e17, 8e19)
            out["dt"].xi_dt, out["dt"].T_dt, out["dt"].R_dt = xi, as_unit(rng, T, ["K", "kK", "mK", "K"]), (R * u.cm).to(["cm", "pc"][int(rng.integers(2))])
        ev["dt"] = {"xi": j(xi), "T": j(T), "R": j(R)}
    return out, ev


def energies(rng, m):
    n = int(rng.integers(2, 5)) if m.cfg["scen"] == "ec" else int(rng.integers(2, 9))
    E = np.sort(10 ** rng.uniform(-5, 12.5, n))
    return E


def replay(b, rng, judge_sums):
    events = [{"op": "reset", "id": "-"}]
    w, seen = {}, []

    def emit(ev):
        ev.setdefault("err", "")
        ev["pars"] = {k: m.pars() for k, m in w.items()}
        events.append(ev)

    for a in b:
        op, id = a[0], a[1]
        if op == "new":
            like = None
            if w and rng.random() < 0.35:       # two models of one distribution
                like = list(w.values())[0]
                a[2]["shape"] = like.cfg["shape"]
            w[id] = Model(id, a[2], rng, like)
            m = w[id]
            ev = {"op": "new", "id": id, "c": a[2], "d": m.d}
            if m.gammapy:
                g = {"spectral": m.m.spectral_parameters.names, "region": m.m.emission_region_parameters.names}
                if m.cfg["scen"] == "ec":
                    g["targets"] = m.m.targets_parameters.names
                ev["groups"] = g
            emit(ev)
            continue
        m = w[id]
        if rng.random() < 0.07:
            m.duplicate()
        if op == "set" and a[2] not in m.P:
            continue                            # not a parameter of the other model's shape
        if op == "set":
            x = number(rng, nearby(rng, a[2], m.P[a[2]]) if rng.random() < 0.3 else pick(rng, a[2], m.gamma))
            ev = {"op": "set", "id": id, "f": a[2], "v": j(x)}
            do = lambda: m.assign(a[2], x)
        elif op == "region":
            blob, r, bv = region(rng)
            ev = {"op": "region", "id": id, "b": bv}

            def do():
                args = (blob, r) if m.cfg["scen"] == "ec" else (blob,)
                m.m.set_emission_region_parameters_from_blob(*args)
                for f in ("z", "delta_D", "log10_B", "t_var") + (("mu_s", "log10_r") if m.cfg["scen"] == "ec" else ()):
                    m.P[f] = {"z": bv["z"], "delta_D": bv["delta_D"], "log10_B": np.log10(bv["B"]),
                              "t_var": (1 + bv["z"]) * bv["R_b"] / (c.cgs.value * bv["delta_D"]),
                              "mu_s": (1 - 1 / (bv["Gamma"] * bv["delta_D"])) / np.sqrt(1 - 1 / bv["Gamma"]**2),
                              "log10_r": np.log10(bv["r"])}[f]
        elif op == "targets":
            o, tv = targets(rng, a[2])
            ev = {"op": "targets", "id": id, **tv}

            def do():
                kw = {k: v for k, v in o.items() if k != "disk"}
                m.m.set_targets_parameters_from_targets(o["disk"], **kw)
                d = tv["disk"]
                m.P.update(log10_L_disk=np.log10(d["L"]), M_BH=d["M"], m_dot=d["L"] / (d["eta"] * c.cgs.value**2), R_in=d["R_in"], R_out=d["R_out"])
                if "blr" in tv:
                    m.P.update(xi_line=tv["blr"]["xi"], lambda_line=tv["blr"]["lambda"], R_line=tv["blr"]["R"])
                if "dt" in tv:
                    m.P.update(xi_dt=tv["dt"]["xi"], T_dt=tv["dt"]["T"], R_dt=tv["dt"]["R"])
        else:
            ev = {"op": "look", "id": id}

            def do():
                if not judge_sums:
                    return
                E = energies(rng, m)
                if not m.gammapy and rng.random() < 0.15:
                    E = np.unique(np.maximum(np.round(E), 1.0))
                if seen and rng.random() < 0.7:     # the energies of an earlier evaluation, or others between the same ends
                    E = drv.twin(seen[-1], [0, 0, 0, 1, 2][int(rng.integers(5))]) if rng.random() < 0.4 else seen[-1]
                seen.append(E)
                over = {}
                if rng.random() < 0.25:             # as a minimiser does
                    names = sorted(m.P)
                    for f in rng.choice(names, int(rng.integers(1, 4)), replace=False):
                        over[str(f)] = nearby(rng, f, m.P[f]) if rng.random() < 0.5 else float(pick(rng, f, m.gamma))
                    ev["over"] = {f: j(x) for f, x in over.items()}
                if rng.random() < 0.2:              # what happens to the distribution object itself does not concern the model
                    f = str(rng.choice(["gamma_min", "k", "norm"]))
                    if hasattr(m.n_e, f):
                        setattr(m.n_e, f, getattr(m.n_e, f) * 1.7)
                res, dens, same = m.evaluate(E, over)
                ph = m.physical(over)
                ev.update(E=jl(E), res=res, density=dens, same=same, phys={k: j(v) for k, v in ph.items()}, comp=m.components(ph, E))
        try:
            do()
        except Exception as e:
            ev["err"] = type(e).__name__ + ": " + str(e)[:150]
        emit(ev)
        if ev["err"]:
            break
    return events


def fit(ctx, prop, n, depth):
    q = ctx.quick
    ctx.run_design("FitModel", {"Models": '{"m1", "m2"}', "V": "1" if q else "2", "Depth": "0", "Gen": "FALSE", "Small": "TRUE",
                                "Live": '{"log10_k", "delta_D", "z", "xi_line", "xi_dt", "log10_L_disk"}'}, {}, ("Fresh", "Own"),
                   defects=("shared", "partial", "spill", "nodisk", "stale", "touch"))
    beh, _ = tlc.generate("FitModel", {"Models": '{"m1", "m2"}', "V": "2", "Depth": str(depth), "Gen": "TRUE", "Live": "{}", "Small": "FALSE",
                                       "Defect": '"none"'}, {}, n, depth, ctx.seed, ctx.wd)
    sessions = drv.pmap(lambda i: replay(beh[i], np.random.default_rng([ctx.seed, int(prop[1:]), i]), prop == "C20"), len(beh))
    ctx.cov["generated_behaviours"] = len(beh)
    cl = "{" + ", ".join('"%s"' % x for x in CLAUSES[prop]) + "}"
    ctx.validate(sessions, module="FitTrace", consts={"Clauses": cl})


def C20(ctx):
    fit(ctx, "C20", ctx.n(60, 600), 13)


def C21(ctx):
    fit(ctx, "C21", ctx.n(120, 3000), 22)
