"""C09: purity of evaluations."""
import json
import numpy as np
import astropy.units as u
import drv
from drv import j, jl, val
from objs import *
from c_dist import ALL, design, behaviours
from c_region import (region_world, act, replay, World, Synchrotron, ProtonSynchrotron, SynchrotronSelfCompton,
                      SpectralConstraints, make_proc, EcProc, PROCS, BAND, NOEMPTY, gammas, b_wrap)
from c_target import Target, KINDS, Abs, threshold
from c_evol import Evolution, configurations
from agnpy.absorption import Absorption, EBL
from agnpy.targets import CMB, SSDisk

SED = "erg cm-2 s-1"


def shadow(events):
    """parameters of every object after the recorded events"""
    env = {}
    for e in events:
        if e["op"] == "new":
            env[e["id"]] = dict(e["par"], cls=e["cls"])
        elif e["op"] == "set":
            env.setdefault(e["id"], {})[e["f"]] = e["v"]
        elif e["op"] == "doppler":
            env[e["id"]].update(Gamma=e["Gamma"], delta_D=("doppler", e["theta"]))
    return env


def key(env, ids):
    """everything that can be read from the objects"""
    seen, todo = {}, list(ids)
    while todo:
        i = todo.pop()
        if i in seen or i not in env:
            continue
        seen[i] = env[i]
        for f in ("n_e", "n_p", "blob", "t"):
            if env[i].get(f) is not None:
                todo.append(env[i][f])
        if env[i].get("cls") == "Blob" and "n_e" not in env[i]:
            todo.append(i + ".default")
    return json.dumps(seen, sort_keys=True)


class Call:
    """an evaluation on named objects; fn receives the objects (the session's or twins)"""

    def __init__(self, what, ids, fn, unit, args=()):
        self.what, self.ids, self.fn, self.unit, self.args = what, ids, fn, unit, args


def some(rng, l):
    return l[int(rng.integers(len(l)))]


def calls(w, rng, name, o, what, k):
    """a call of the requested kind on an object of the session"""
    if what == "electrons":
        g = gammas(rng, 5)
        return some(rng, [
            Call("N_e", [name], lambda b: b.N_e(g), None, [g]),
            Call("gamma_e", [name], lambda b: b.gamma_e, None),
            Call("n_e_tot", [name], lambda b: b.n_e_tot, "cm-3"),
            Call("gamma_e_external_frame", [name], lambda b: b.gamma_e_external_frame, None)])
    if what == "energy":
        s = [Call(x, [name], lambda b, x=x: getattr(b, x), un) for x, un in
             (("u_e", "erg cm-3"), ("W_e", "erg"), ("P_jet_ke", "erg s-1"), ("k_eq", None), ("theta_s", "deg"),
              ("u_ph_synch", "erg cm-3"))]
        if type(o.o.n_e).__name__ != "EmptyDistribution":
            s += [Call(x, [name], lambda b, x=x: getattr(SpectralConstraints(b), x), None) for x in
                  ("gamma_max_synch", "gamma_max_SSC", "gamma_break_synch")]
        return some(rng, s)
    if what == "dens":
        g = gammas(rng, 6)
        if k == 2 and o.cls != "EmptyDistribution":
            return Call("SSA_integrand", [name], lambda d: d.SSA_integrand(g), "cm-3", [g])
        if k == 3:
            lo, hi = float(o.o.gamma_min) * 1.1, float(o.o.gamma_max) * 0.9
            return Call("integrate", [name], lambda d: d.integrate(lo, hi, gamma_power=1), "cm-3")
        return Call("dens", [name], lambda d: d(g), "cm-3", [g])
    if what == "target":
        t = w.m["t"]
        if not t.ok:
            return None
        if t.kind in ("SSDisk", "RingDustTorus") and k > 1:
            nu, _ = freqs(rng, 1e11, 1e16)
            return Call("sed", ["t"], lambda t: t.sed_flux(nu, 0.3), SED, [nu])
        r = t.distance() * u.cm
        if t.kind == "CMB":
            return Call("u", ["t", "b1"], lambda t, b: t.u(b), "erg cm-3")
        return Call("u", ["t", "b1"], lambda t, b: t.u(r, b), "erg cm-3", [r])
    if what == "tau":
        if k == 1:
            m = w.m["ebl"]
            ref = np.asarray(EBLS[0].energy_ref, float) if hasattr(EBLS[0], "energy_ref") else np.array([1e7, 1e10])
            e = 10 ** rng.uniform(np.log10(ref[0]) - 0.3, np.log10(ref[-1]) + 0.3, int(rng.integers(1, 6)))
            if rng.random() < 0.5:          # next to the borders of the table
                e[int(rng.integers(len(e)))] = some(rng, [ref[0], ref[-1]]) * (1 + some(rng, [-1, 1, 0]) * lu(rng, 1e-7, 1e-2))
            nu = (e * u.keV).to(some(rng, ["keV", "keV", "Hz", "TeV", "cm"]), equivalencies=u.spectral())
            z = some(rng, [float(rng.uniform(0.05, 1.5)), 1, 0.0, np.float64(rng.uniform(0.05, 1.5))])
            return Call("ebl", [], lambda: m.absorption(nu, z), None, [nu])
        t = w.m["t"] if k == 2 else w.m["b1"]
        if not t.ok or getattr(t, "kind", "") == "CMB":
            return None
        if k == 2:
            r = t.distance() * u.cm
            nu = threshold(t) * 10 ** rng.uniform(-1, 3, 3) * u.Hz

            def fn(t):
                a = Absorption(t, r=r, z=0.2)
                a.set_mu(6), a.set_phi(5), a.set_l(7)
                return a.tau(nu)
            return Call("tau", ["t"], fn, None, [nu, r])
        if type(t.o.n_e).__name__ == "EmptyDistribution":
            return None
        nu = 10 ** rng.uniform(22, 28, 2) * u.Hz
        return Call("tau", ["b1"], lambda b: Absorption(b, z=b.z).tau(nu), None, [nu])
    # processes
    if not o.ok:
        return None
    lo, hi = BAND[o.cls]
    nu, _ = freqs(rng, lo, hi)
    if what == "loss" and o.cls in ("Synchrotron", "SynchrotronSelfCompton"):
        g = gammas(rng, 3)
        return Call("loss", [name], lambda p: p.electron_energy_loss_rate(g), "erg s-1", [g])
    if what == "ssc" and o.cls != "ExternalCompton":
        return some(rng, [Call("peak", [name], lambda p: p.sed_peak_flux(nu), SED, [nu]),
                          Call("lum", [name], lambda p: p.sed_luminosity(nu), "erg s-1", [nu])])
    if what == "ec":
        a, b = nu.min(), nu.max() * 2
        return some(rng, [Call("flux", [name], lambda p: p.flux_integral(a, b, 9), "cm-2 s-1", [a, b]),
                          Call("eflux", [name], lambda p: p.energy_flux_integral(a, b, 9), SED, [a, b]),
                          Call("diff", [name], lambda p: p.diff_energy_flux(nu), "eV-1 cm-2 s-1", [nu])])
    return Call("sed", [name], lambda p: p.sed_flux(nu), SED, [nu])


class Purity:
    def __init__(self, rec, w):
        self.rec, self.w, self.done = rec, w, []

    def objs(self, c):
        return [self.rec.objs[i] if i in self.rec.objs else self.w.m[i].o for i in c.ids]

    def first(self, c, name):
        k = key(shadow(self.rec.events), c.ids)
        rec = self.rec
        ev = rec.obs(name, c.what, {}, lambda: c.fn(*self.objs(c)), c.unit,
                     watch={"argument %d" % n: x for n, x in enumerate(c.args)})
        ev["sane"] = True
        if ev["err"] == "":
            self.done.append((c, ev["res"], k))
            return ev["res"]

    def again(self, c, res, objs, kind="again"):
        # floating-point kernels depend on memory alignment: cancelling sums amplify it
        tol = 1e-7 if any(getattr(self.w.m.get(i), "ssa", False) for i in c.ids) or c.what in ("tau", "ebl") else 1e-9
        self.rec.obs("lib", kind, {"prev": res, "tol": tol, "of": c.what}, lambda: c.fn(*objs), c.unit,
                     watch={"argument %d" % n: x for n, x in enumerate(c.args)})

    def repeat(self, rng):
        env = shadow(self.rec.events)
        ok = [(c, r) for c, r, k in self.done if key(env, c.ids) == k]
        if ok:
            c, r = some(rng, ok)
            self.again(c, r, self.objs(c))

    def twin(self, c, res):
        self.again(c, res, [self.w.m[i].twin() for i in c.ids])


def split(rec, rng, p):
    """one frequency at a time, in another order, in another unit"""
    o = p.o
    lo, hi = BAND[p.cls]
    n = int(rng.integers(2, 6))
    x = 10 ** rng.uniform(np.log10(lo), np.log10(hi), n)
    res = val(o.sed_flux(x * u.Hz), SED)
    tol = 1e-7 if p.ssa else 1e-9
    a = {"prev": res, "tol": tol}
    S = lambda q: val(o.sed_flux(q), SED)
    rec.obs("lib", "split", dict(a), lambda: np.array([S(x[i:i + 1] * u.Hz)[0] for i in range(n)]))
    perm = rng.permutation(n)
    back = np.argsort(perm)
    rec.obs("lib", "split", dict(a), lambda: np.array(S(x[perm] * u.Hz))[back])
    more = np.concatenate([10 ** rng.uniform(np.log10(lo), np.log10(hi), 3), x])
    rec.obs("lib", "split", dict(a), lambda: np.array(S(more * u.Hz))[3:])
    if p.cls != "ExternalCompton":
        a["tol"] = 1e-6
        un = some(rng, ["GHz", "THz", "kHz"])
        rec.obs("lib", "units", dict(a), lambda: np.array(S((x * u.Hz).to(un))))


EBLS = []


def start(rec, rng, i):
    names = dict.fromkeys(["d1", "d3", "e2", "b2", "b1p"], True)
    w = region_world(rec, rng, i, ALL if i % 6 == 0 else NOEMPTY, names, [12, 18])
    empty = any(w[x].ok and type(w[x].o).__name__ == "EmptyDistribution" for x in ("d1", "e1", "e2"))
    w["t"] = Target(rec, rng, "t", KINDS[i % 5])
    if not EBLS:
        EBLS.append(EBL("dominguez_2011"))
    w["ebl"] = b_wrap(EBLS[0]).o
    for p, b, n in (("p", "b1", 0), ("q", "b2", 1 + i // 4)):
        cls = PROCS[(i + n) % 4]
        if empty and cls[:3] == "Syn":
            cls = "ProtonSynchrotron"
        w[p] = make_proc(rec, rng, p, cls, w[b], KINDS[(i // 4) % 5])
    return w


def look_for(state):
    def look(w, rec, rng, name, o, what, k):
        if state.get("rec") is not rec:
            state["rec"], state["pure"] = rec, Purity(rec, w)
        P = state["pure"]
        if what == "repeat":
            return P.repeat(rng)
        if what == "split":
            return split(rec, rng, o) if o.ok else None
        i = o.id
        if i not in w.m:
            w[i] = o
        c = calls(w, rng, i, o, what, k)
        if c is None:
            return
        ev = P.first(c, c.ids[0] if c.ids else "lib")
        if ev is not None and c.ids and rng.random() < 0.4:
            P.twin(c, ev)
    return look


# ---- independence of objects created with default arguments
def mutate(x, depth=0, seen=None):
    """change every number an object holds, in place where possible"""
    seen = set() if seen is None else seen
    if id(x) in seen or depth > 4:
        return
    seen.add(id(x))
    for f, v in list(getattr(x, "__dict__", {}).items()):
        if isinstance(v, np.ndarray) and v.ndim and v.dtype.kind == "f" and v.flags.writeable:
            v *= 1.01
        elif isinstance(v, (u.Quantity, float)) and not isinstance(v, bool) and type(v).__name__ != "Constant":
            try:
                setattr(x, f, v * 1.01)
            except Exception:
                pass
        elif isinstance(v, dict):
            v["__mutated__"] = 1
        elif isinstance(v, list):
            v.append(None)
        elif hasattr(v, "__dict__") and type(v).__module__.startswith("agnpy"):
            mutate(v, depth + 1, seen)


def pairs():
    from agnpy.emission_regions import Blob
    from agnpy.compton import ExternalCompton
    g = np.logspace(1.2, 4, 6)
    nu = np.logspace(11, 16, 4) * u.Hz
    hi = np.logspace(19, 25, 3) * u.Hz
    blob = lambda: Blob(gamma_e_size=12)
    ec = lambda: ExternalCompton(blob(), CMB(z=0.1))
    ab = lambda: Absorption(SSDisk(1e8 * u.M_sun, 1e45 * u.Unit("erg s-1"), 0.1, 6, 200, R_g_units=True), r=1e17 * u.cm)
    out = [(n, CLS[n], lambda o: val(o(g), "cm-3")) for n in ANALYTIC + ["EmptyDistribution"]]
    out += [("Blob", blob, lambda o: val(o.N_e(g), None) + val(o.u_e, "erg cm-3") + val(o.gamma_e, None)
             + val(o.theta_s, "deg") + val(o.d_L, "cm")),
            ("Synchrotron", lambda: Synchrotron(blob(), ssa=True), lambda o: val(o.sed_flux(nu), SED)),
            ("SynchrotronSelfCompton", lambda: SynchrotronSelfCompton(blob()), lambda o: val(o.sed_flux(hi), SED)),
            ("ExternalCompton", ec, lambda o: val(o.sed_flux(hi[:1]), SED)),
            ("Absorption", ab, lambda o: val(o.tau(1e27 * np.ones(1) * u.Hz), None)),
            ("EBL", lambda: EBL("finke_2010"), lambda o: jl(o.absorption(np.array([1e26, 3e26]) * u.Hz, 0.5)))]
    return out


def independence(rec):
    rec.reset()
    for n, make, f in pairs():
        x, y = make(), make()
        r = f(y)
        mutate(x)
        rec.obs("lib", "again", {"prev": r, "tol": 1e-9, "of": "other " + n}, lambda: np.array(f(y)))
        rec.obs("lib", "again", {"prev": r, "tol": 1e-9, "of": "new " + n}, lambda: np.array(f(make())))


# ---- every argument, in the unit the function works in (no copy made by a conversion), next to the limits
def sweep(rec, rng):
    from agnpy.absorption import sigma
    from agnpy.compton import ExternalCompton
    from agnpy.spectra import InterpolatedDistribution
    from agnpy.utils import geometry as geo
    from agnpy.utils.conversion import nu_to_epsilon_prime, B_to_cgs, to_R_g_units
    from agnpy.utils.math import log, trapz_loglog, power_law_integral, axes_reshaper
    from agnpy.compton.kernels import isotropic_kernel, compton_kernel, get_gamma_min
    rec.reset()
    cm, erg_s = u.cm, u.Unit("erg s-1")
    A = lambda lo, hi, n=5: 10 ** rng.uniform(np.log10(lo), np.log10(hi), n)
    U = lambda lo, hi, n=5: rng.uniform(lo, hi, n)
    p = rng.uniform(1.5, 3.5)
    lo, hi = lu(rng, 1.5, 1e2), lu(rng, 1e4, 1e6)
    pl = CLS["PowerLaw"](k=lu(rng, 1e-3, 1e3) * u.Unit("cm-3"), p=p, gamma_min=lo, gamma_max=hi)
    blob = region(rng, pl)
    par = (0.3, blob.d_L, 12.0, 0.4 * u.G, 1e16 * cm)
    L, M = 2e45 * erg_s, 1.2e8 * u.M_sun
    mu, phi = np.linspace(-1, 1, 6), np.linspace(0, 2 * np.pi, 5)
    com = (0.3, blob.d_L, 12.0, 0.99, 1e16 * cm)
    gam = np.logspace(np.log10(lo), np.log10(hi), 14)
    near = lambda: np.concatenate([[lo * (1 + some(rng, [-1, 1, 0]) * lu(rng, 1e-13, 1e-3))], A(lo, hi, 3),
                                   [hi * (1 + some(rng, [-1, 1, 0]) * lu(rng, 1e-13, 1e-3))]])
    en = lambda n=3: A(1e-9, 1e9, n)
    nus = lambda a, b, n=4: some(rng, [u.Quantity(A(a, b, n), "Hz"), u.Quantity(np.sort(A(a, b, n)), "Hz")])
    disk = SSDisk(M, L, 1 / 12, 6, 200, R_g_units=True)
    ssc, syn = SynchrotronSelfCompton(blob), Synchrotron(blob, ssa=True)
    ec = ExternalCompton.evaluate_sed_flux_iso_mono
    r = 1e17 * cm
    gn = np.logspace(1, 4, 12)
    args = [
        ("density", lambda g: pl(g), [near()]),
        ("density static", lambda g, k: CLS["PowerLaw"].evaluate(g, k, p, lo, hi), [near(), u.Quantity(2.0, "cm-3")]),
        ("ssa integrand", lambda g: pl.SSA_integrand(g), [near()]),
        ("interpolated", lambda g, n, x: InterpolatedDistribution(g, n)(x), [gn, u.Quantity(A(1e-3, 1e3, 12), "cm-3"), A(10, 1e4)]),
        ("N_e", lambda g: blob.N_e(g), [near()]),
        ("n_e", lambda g: blob.n_e(g), [near()]),
        ("loss", lambda g: syn.electron_energy_loss_rate(g), [near()]),
        ("ssc loss", lambda g: ssc.electron_energy_loss_rate(g), [near()[:2]]),
        ("u_ph_synch_diff", lambda e, s: blob.u_ph_synch_diff(e, s), [A(1e-12, 1), u.Quantity(A(1e-14, 1e-10), SED)]),
        ("synch", lambda nu, B, R, d, g: Synchrotron.evaluate_sed_flux(nu, 0.3, d, 12.0, B, R, pl, *pl.parameters, ssa=True, gamma=g),
         [nus(1e10, 1e18), u.Quantity(0.4, "G"), u.Quantity(1e16, "cm"), blob.d_L.to("cm"), gam]),
        ("synch delta", lambda nu, B, R, d: Synchrotron.evaluate_sed_flux_delta_approx(nu, 0.3, d, 12.0, B, R, pl, *pl.parameters),
         [nus(1e10, 1e18), u.Quantity(0.4, "G"), u.Quantity(1e16, "cm"), blob.d_L.to("cm")]),
        ("tau_ssa", lambda nu, B, R, d, g: Synchrotron.evaluate_tau_ssa(nu, 0.3, d, 12.0, B, R, pl, *pl.parameters, gamma=g),
         [nus(1e9, 1e14), u.Quantity(0.4, "G"), u.Quantity(1e16, "cm"), blob.d_L.to("cm"), gam]),
        ("ssc", lambda nu, B, R, d, g: SynchrotronSelfCompton.evaluate_sed_flux(nu, 0.3, d, 12.0, B, R, pl, *pl.parameters, gamma=g),
         [nus(1e18, 1e26, 2), u.Quantity(0.4, "G"), u.Quantity(1e16, "cm"), blob.d_L.to("cm"), gam]),
        ("ec iso", lambda nu, g, m, f: ec(nu, *com, 1e-6, 1e-4 * u.Unit("erg cm-3"), pl, *pl.parameters, mu=m, phi=f, gamma=g),
         [nus(1e18, 1e26, 2), gam, mu, phi]),
        ("ec point", lambda nu, g, r: ExternalCompton.evaluate_sed_flux_ps_behind_jet(nu, *com, 1e-6, L, r, pl, *pl.parameters, gamma=g),
         [nus(1e18, 1e26, 2), gam, u.Quantity(1e17, "cm")]),
        ("ec disk", lambda nu, g, f, r: ExternalCompton.evaluate_sed_flux_ss_disk(nu, *com, M, L, 1 / 12, 1e14 * cm, 1e16 * cm, r, pl,
                                                                                  *pl.parameters, mu_size=6, phi=f, gamma=g),
         [nus(1e18, 1e26, 2), gam, phi, u.Quantity(1e17, "cm")]),
        ("ec shell", lambda nu, g, m, f, r: ExternalCompton.evaluate_sed_flux_blr(nu, *com, L, 0.1, 2e-5, 1e17 * cm, r, pl, *pl.parameters,
                                                                                  mu=m, phi=f, gamma=g),
         [nus(1e18, 1e26, 2), gam, mu, phi, u.Quantity(some(rng, [1e17 / 3, 3e16, 1.00005e17]), "cm")]),
        ("ec ring", lambda nu, g, f, r: ExternalCompton.evaluate_sed_flux_dt(nu, *com, L, 0.1, 2e-7, 1e18 * cm, r, pl, *pl.parameters, phi=f, gamma=g),
         [nus(1e18, 1e26, 2), gam, phi, u.Quantity(1e17, "cm")]),
        ("tau disk", lambda nu, f: Absorption.evaluate_tau_ss_disk(nu, 0.3, 1, M, L, 1 / 12, 1e14 * cm, 1e16 * cm, r, R_tilde_size=9, l_tilde_size=8, phi=f),
         [nus(1e24, 1e28, 2), phi]),
        ("tau shell", lambda nu, m, f, r: Absorption.evaluate_tau_blr(nu, 0.3, 1, L, 0.1, 2e-5, 1e17 * cm, r, l_size=8, mu=m, phi=f),
         [nus(1e24, 1e28, 2), mu, phi, u.Quantity(some(rng, [1e17 / 3, 3e16, 1.00005e17]), "cm")]),
        ("tau shell aside", lambda nu, m, f, r: Absorption.evaluate_tau_blr_mu_s(nu, 0.3, 0.9, L, 0.1, 2e-5, 1e17 * cm, r, u_size=8, mu=m, phi=f),
         [nus(1e24, 1e28, 2), mu, phi, u.Quantity(some(rng, [1e17 / 3, 3e16, 1.00005e17]), "cm")]),
        ("tau ring", lambda nu, f: Absorption.evaluate_tau_dt(nu, 0.3, 1, L, 0.1, 2e-7, 1e18 * cm, r, l_size=8, phi=f), [nus(1e26, 1e30, 2), phi]),
        ("tau ring aside", lambda nu, f: Absorption.evaluate_tau_dt_mu_s(nu, 0.3, 0.9, L, 0.1, 2e-7, 1e18 * cm, r, u_size=8, phi_re=f),
         [nus(1e26, 1e30, 2), phi]),
        ("sigma", lambda s: sigma(s), [np.concatenate([A(1e-2, 1e4), [1.0, 0.5]])]),
        ("disk T", lambda R: disk.T(R), [u.Quantity(A(2e14, 1e16), "cm")]),
        ("disk epsilon", lambda R: disk.epsilon(R), [A(6, 200)]),
        ("disk phi", lambda R: disk.phi_disk(R), [np.concatenate([[6.0], A(6, 200)])]),
        ("disk sed", lambda nu: disk.sed_flux(nu, 0.3), [nus(1e12, 1e17)]),
        ("nu_to_epsilon_prime", lambda nu: nu_to_epsilon_prime(nu, 0.2, 10), [nus(1e8, 1e28)]),
        ("B_to_cgs", lambda B: B_to_cgs(B), [u.Quantity(A(1e-4, 1e2), "G")]),
        ("B_to_cgs native", lambda B: B_to_cgs(B), [B_to_cgs(u.Quantity(A(1e-4, 1e2), "G"))]),
        ("to_R_g_units", lambda x, m: to_R_g_units(x, m), [u.Quantity(A(1e13, 1e18), "cm"), u.Quantity(2e41, "g")]),
        ("log", lambda x: log(x), [np.concatenate([[0.0, 1e-320], A(1e-300, 1e300)])]),
        ("trapz_loglog", lambda y, x: trapz_loglog(y, x), [np.concatenate([[0.0], A(1e-9, 1e9, 3), [5e-324]]), np.geomspace(1, 1e3, 5)]),
        ("power_law_integral", lambda a, b: power_law_integral(1.0, p, a, b), [A(1, 10), A(100, 1e4)]),
        ("axes_reshaper", lambda a, b: sum(x.sum() for x in axes_reshaper(a, b)), [A(1, 2), A(1, 2, 3)]),
        ("cos_psi", lambda a, b, c: geo.cos_psi(a, b, c), [np.array([1.0, 0.5, -1.0]), np.array([1.0, -0.2, -1.0]), U(0, 6.28, 3)]),
        ("x_re_shell", lambda m, r: geo.x_re_shell(m, 1e17 * cm, r), [U(-1, 1), u.Quantity(A(1e16, 1e18), "cm")]),
        ("mu_star_shell", lambda m, r: geo.mu_star_shell(m, 1e17 * cm, r), [U(-1, 1), u.Quantity(A(1e16, 1e18), "cm")]),
        ("x_re_ring", lambda r: geo.x_re_ring(1e17 * cm, r), [u.Quantity(A(1e16, 1e18), "cm")]),
        ("x_re_ring_mu_s", lambda f, v: geo.x_re_ring_mu_s(1e17 * cm, r, f, v, 0.7), [U(0, 6.28), u.Quantity(A(1e15, 1e18), "cm")]),
        ("phi_mu_re_ring", lambda f, v: geo.phi_mu_re_ring(1e17 * cm, r, f, v, 0.7)[1], [U(0, 6.28), u.Quantity(A(1e15, 1e18), "cm")]),
        ("x_re_shell_mu_s", lambda f, m, v: geo.x_re_shell_mu_s(1e17 * cm, r, f, m, v, 0.7), [U(0, 6.28), U(-1, 1), u.Quantity(A(1e15, 1e18), "cm")]),
        ("phi_mu_re_shell", lambda f, m, v: geo.phi_mu_re_shell(1e17 * cm, r, f, m, v, 0.7)[1], [U(0, 6.28), U(-1, 1), u.Quantity(A(1e15, 1e18), "cm")]),
        ("isotropic kernel", lambda g, e, s: isotropic_kernel(g, e, s), [A(10, 1e4), A(1e-6, 1e-3), A(1e-3, 10)]),
        ("compton kernel", lambda g: compton_kernel(g, 10.0, 1e-4, 0.9, 0.1, 1.0), [A(1e2, 1e5)]),
        ("gamma_min", lambda s: get_gamma_min(s, 1e-4, 0.9, 0.1, 1.0), [A(1e-2, 1e5)]),
    ]
    for n, fn, a in args:
        f = lambda: np.asarray(getattr(fn(*a), "value", fn(*a)), float)
        W = {"argument %d" % k: x for k, x in enumerate(a)}
        ev = rec.obs("lib", "sweep " + n, {}, f, watch=W)
        ev["sane"] = True
        if ev["err"] == "":
            rec.obs("lib", "again", {"prev": ev["res"], "tol": 1e-7, "of": n}, f, watch=W)


def region(rng, d):
    from agnpy.emission_regions import Blob
    return Blob(R_b=1e16 * u.cm, z=0.3, delta_D=12, Gamma=10, B=0.4 * u.G, n_e=d, gamma_e_size=20)


def C09(ctx):
    design(ctx)
    beh = behaviours(ctx, "Proc", "PureObs", ctx.n(95, 1200), 20, 3, 2, '{"b1", "b2"}')
    s = replay(ctx, beh, 9, start, look_for({}), purity=True)
    rec = drv.Recorder(purity=True)
    independence(rec)
    for k in range(ctx.n(6, 100)):
        sweep(rec, np.random.default_rng([ctx.seed, 99, k]))
    ctx.validate(s + [rec.events])
    # evolutions: the caller's arrays, dictionaries and the states handed to the callback stay what they were
    cfgs = configurations(ctx, "groups", ctx.n(260, 2000))
    for n, c in enumerate(cfgs):
        c["steps"] = "one" if n % 3 else c["steps"]
    s = drv.pmap(lambda i: Evolution(np.random.default_rng([ctx.seed, 9, i]), cfgs[i], 5).session(), len(cfgs))
    ctx.validate(s, module="EvolTrace", consts={"Clauses": '{"history"}'})
    ctx.assumptions += ["the state of an object is what its attributes (and those of the agnpy objects it holds) contain",
                        "results of a repeated call agree to 1e-9, of a frequency taken alone to 1e-9 (1e-7 with self-absorption)"]
