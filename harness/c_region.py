"""C04 regions, C05 synchrotron, C06 self-Compton, C08 conversions, C09 purity, C13 constraints."""
import numpy as np
import astropy.units as u
from astropy.constants import m_e, m_p
import tlc, drv
from drv import j, jl, val
from objs import *
from c_dist import ALL, design, behaviours, dens_obs, container
from agnpy.synchrotron import Synchrotron, ProtonSynchrotron, nu_synch_peak
from agnpy.compton import SynchrotronSelfCompton, ExternalCompton
from agnpy.constraints import SpectralConstraints
from agnpy.utils.conversion import nu_to_epsilon_prime

NOEMPTY = [c for c in ALL if c != "EmptyDistribution"]
PROT = ANALYTIC


class World:
    """objects of a session by abstract name (b1, e1, p ...)"""

    def __init__(self):
        self.m = {}

    def __getitem__(self, k):
        return self.m[k]

    def __setitem__(self, k, v):
        self.m[k] = v


def alike(rng, w, *names):
    """one of the distributions, or none"""
    m = [w.m[n] for n in names if n in w.m and w.m[n].ok]
    return m[int(rng.integers(len(m)))] if m and rng.random() < 0.35 else None


def region_world(rec, rng, i, classes, names, sizes=SIZES, explicit=None, gmax=60.0):
    rec.reset()
    w = World()
    pick = lambda n: classes[(i + 3 * n) % len(classes)]
    if "d1" in names:
        w["d1"] = Dist(rec, rng, "d1", pick(0))
    if "d2" in names:
        w["d2"] = Dist(rec, rng, "d2", pick(1))
    if "d3" in names:
        w["d3"] = Dist(rec, rng, "d3", PROT[i % len(PROT)], "p")
    made = rng.random() < 0.5
    if not made:
        w["e1"] = Dist(rec, rng, "e1", pick(2), like=alike(rng, w, "d1", "d2"))
    if "e2" in names:
        w["e2"] = Dist(rec, rng, "e2", pick(3), like=alike(rng, w, "d1", "d2", "e1"))
    prot = w["d3"] if "d3" in names else None
    b1p = prot if names.get("b1p") else None
    w["b1"] = BlobObj(rec, rng, "b1", None if made else w["e1"], b1p, sizes, explicit, gmax)
    if made:
        w["e1"] = Existing(rec, rng, "b1.default", "PowerLaw")
        w["b1"].refs["n_e"] = w["e1"]
    if "b2" in names:
        w["b2"] = BlobObj(rec, rng, "b2", w["e2"], prot, sizes, explicit, gmax)
    return w


def act(w, a, look):
    """perform one action of a behaviour"""
    kind, o = a[0], w.m.get(a[1])
    if o is None or not o.ok:
        return
    if kind == "set":
        o.set(a[2], a[3])
    elif kind == "ref":
        t = None if a[3] == "none" else w[a[3]]
        now = getattr(o, "refs", {}).get(a[2])
        if t is not None and now is not None and now.ok and not isinstance(now, Existing) and o.rng.random() < 0.3:
            # a new one, equal to the one attached and soon different from it
            t = w[a[3]] = Dist(o.rec, o.rng, "%s.%d" % (a[3], len(o.rec.events)), None, like=now)
        if t is None or t.ok:
            o.attach(a[2], t)
            if t is not None and t is not now and t.rng.random() < 0.5:
                f, v = t.fields(t.rng)
                t.set(f, v)
    elif kind == "joint":
        o.doppler(a[2])
    elif kind in ("obs", "again"):
        look(kind, a[1], o, a[2], a[3])


def replay(ctx, beh, tag, start, look, purity=False):
    def one(i):
        rec = drv.Recorder(purity=purity)
        rng = np.random.default_rng([ctx.seed, tag, i])
        w = start(rec, rng, i)
        looks = drv.Looks(rng, inplace=not purity)
        for a in beh[i]:
            looks.jolt = lambda: jolt(rng, w.m, a[1])
            act(w, a, lambda kind, name, o, what, k: looks(kind, lambda: look(w, rec, rng, name, o, what, k)))
        return rec.events

    return drv.pmap(one, len(beh))


# ------------------------------------------------------------------ C04
@drv.argument
def gammas(rng, n):
    g = 10 ** rng.uniform(0.3, 7.5, n)
    return g if rng.random() < 0.5 else np.sort(g)


def blob_group(rec, rng, id, b, what):
    o = b.o
    O = lambda w, fn, unit=None, a=None, **k: rec.obs(id, w, a or {}, fn, unit, watch={"blob": o}, **k)
    if what == "geom":
        O("V_b", lambda: o.V_b, "cm3")
        O("t_var", lambda: o.t_var, "d")
        O("Beta", lambda: o.Beta)
        O("mu_s", lambda: o.mu_s)
        O("theta_s", lambda: o.theta_s, "deg")
        O("delta_D", lambda: o.delta_D)
        O("Gamma", lambda: o.Gamma)
        O("B_cgs", lambda: o.B_cgs, "cm(-1/2) g(1/2) s-1")
        O("R_b", lambda: o.R_b, "cm")
        O("d_L", lambda: o.d_L, "cm")
    elif what == "electrons":
        O("gamma_e", lambda: o.gamma_e)
        O("gamma_e_external_frame", lambda: o.gamma_e_external_frame)
        g = gammas(rng, 5)
        O("N_e", lambda: o.N_e(g), "", {"g": jl(g)})
        O("n_e_tot", lambda: o.n_e_tot, "cm-3")
        O("N_e_tot", lambda: o.N_e_tot, "")
    elif what == "energy":
        O("u_e", lambda: o.u_e, "erg cm-3")
        O("W_e", lambda: o.W_e, "erg")
        O("U_B", lambda: o.U_B, "erg cm-3")
        O("k_eq", lambda: o.k_eq)
        O("u_ph_synch", lambda: o.u_ph_synch, "erg cm-3")
    elif what == "jet":
        O("P_jet_ke", lambda: o.P_jet_ke, "erg s-1")
        O("P_jet_B", lambda: o.P_jet_B, "erg s-1")
        eps, sed = 10 ** rng.uniform(-12, 0, 4), 10 ** rng.uniform(-16, -8, 4)
        O("u_ph_synch_diff", lambda: o.u_ph_synch_diff(eps, sed * u.Unit("erg cm-2 s-1")), "erg cm-3",
          {"eps": jl(eps), "sed": jl(sed)})
    else:
        try:
            protons = o.n_p is not None
        except AttributeError:
            protons = False
        if not protons:
            for w in ("gamma_p", "n_p_tot", "N_p_tot", "u_p", "W_p", "n_p"):
                O(w, lambda: getattr(o, w), refused=["AttributeError"])
            O("N_p", lambda: o.N_p(np.array([10.0])), refused=["AttributeError"])
            return
        O("gamma_p", lambda: o.gamma_p)
        g = gammas(rng, 5)
        O("N_p", lambda: o.N_p(g), "", {"g": jl(g)})
        O("n_p_tot", lambda: o.n_p_tot, "cm-3")
        O("N_p_tot", lambda: o.N_p_tot, "")
        O("u_p", lambda: o.u_p, "erg cm-3")
        O("W_p", lambda: o.W_p, "erg")


def C04(ctx):
    design(ctx)
    beh = behaviours(ctx, "Blob", "BlobObs", ctx.n(110, 800), 18, 1, 3, '{"b1", "b2"}')
    names = dict.fromkeys(["d1", "d2", "d3", "e2", "b2"], True)

    def start(rec, rng, i):
        return region_world(rec, rng, i, ALL, names, SIZES + ([200] if i % 4 == 0 else []))

    def look(w, rec, rng, name, b, what, k):
        for n in ("b1", "b2"):          # look at the other region too: it must not have moved
            if n == name or rng.random() < 0.3:
                if w[n].ok:
                    blob_group(rec, rng, n, w[n], what)
    ctx.validate(replay(ctx, beh, 4, start, look))
    ctx.assumptions += ["luminosity distance of a redshift taken from astropy.coordinates.Distance",
                        "Doppler factors below 1.9 times the Lorentz factor (elsewhere the viewing angle is not defined)"]


# ------------------------------------------------------------------ C13
def C13(ctx):
    from c_target import torus
    design(ctx)
    beh = behaviours(ctx, "Blob", "ConsObs", ctx.n(120, 800), 14, 2, 3, '{"b1", "b2"}')
    names = dict.fromkeys(["d1", "d2", "d3", "e2", "b2"], True)

    def start(rec, rng, i):
        w = region_world(rec, rng, i, NOEMPTY, names)
        for n, s in (("b1", "s1"), ("b2", "s2")):
            if w[n].ok:
                rec.new(s, "SpectralConstraints", {"blob": n}, lambda: SpectralConstraints(w[n].o))
        w["t"] = torus(rec, rng, "t")
        return w

    def look(w, rec, rng, name, b, what, k):
        s = "s" + name[1]
        o = rec.objs[s]
        if k == 2 and rng.random() < 0.5:         # a new evaluator of the same region
            o = SpectralConstraints(b.o)
        O = lambda w, fn, a=None: rec.obs(s, w, a or {}, fn, None, watch={"blob": b.o})
        if what == "constraints":
            for c in ("gamma_max_larmor", "gamma_max_ballistic", "gamma_max_synch", "gamma_max_SSC",
                      "gamma_break_synch", "gamma_break_SSC"):
                O(c, lambda: getattr(o, c))
        else:
            t = w["t"]
            if rng.random() < 0.5:
                t.set(["L", "q", "R", "T"][int(rng.integers(4))], int(rng.integers(3)))
            r = as_unit(rng, [0.0, lu(rng, 1e16, 1e20)][int(rng.random() < 0.7)], LEN[:4])
            for c in ("gamma_max_EC_DT", "gamma_break_EC_DT"):
                if r.value == 0 and rng.random() < 0.5:
                    O(c, lambda: getattr(o, c)(t.o), {"t": "t", "r": 0})
                else:
                    O(c, lambda: getattr(o, c)(t.o, r), {"t": "t", "r": j(r.to_value("cm"))})
    ctx.validate(replay(ctx, beh, 13, start, look))


# ------------------------------------------------------------------ C05
def static_call(cls, o, nu, **kw):
    b = o.blob
    d = b.n_e if cls != ProtonSynchrotron else b.n_p
    n = type(d) if type(d).__name__ in SHAPE and kw.pop("klass", True) else d
    return cls.evaluate_sed_flux(nu, b.z, b.d_L, b.delta_D, b.B, b.R_b, n, *d.parameters, **kw)


def C05(ctx):
    design(ctx)
    beh = behaviours(ctx, "Proc", "SynObs", ctx.n(130, 800), 16, 4, 3, '{"b1"}')
    names = dict.fromkeys(["d1", "d3", "e2", "b2", "b1p"], True)

    def start(rec, rng, i):
        w = region_world(rec, rng, i, NOEMPTY, names, [12, 24, 60] if i % 8 else [200])
        for p, b in (("p", "b1"), ("q", "b2")):
            w[p] = Proc(rec, rng, p, "Synchrotron", Synchrotron, w[b], ssa=rng.random() < 0.5)
            w[p].proton = Proc(rec, rng, p + "p", "ProtonSynchrotron", ProtonSynchrotron, w[b])
        return w

    def look(w, rec, rng, name, p, what, k):
        o, b = p.o, p.o.blob
        if what == "sed":
            nu, l = freqs(rng, 1e8, 1e22, bulk=0.12)
            rec.obs(p.id, "sed_flux", {"nu": l}, lambda: o.sed_flux(nu), "erg cm-2 s-1", watch={"nu": nu, "blob": b})
        elif what == "static":
            nu, l = freqs(rng, 1e8, 1e21, 3)
            ssa, rule = bool(rng.random() < 0.5), ["trapz", "loglog"][int(rng.random() < 0.3)]
            kw = {"ssa": ssa, "integrator": RULES[rule]} if k > 1 else {}
            a = {"nu": l, "ssa": ssa if kw else False, "rule": rule if kw else "trapz"}
            rec.obs(p.id, "sed_flux_static", a, lambda: static_call(Synchrotron, o, nu, **kw), "erg cm-2 s-1")["w"] = 4
        elif what == "delta":
            nu, l = freqs(rng, 1e9, 1e21, bulk=0.1)
            rec.obs(p.id, "sed_flux_delta_approx", {"nu": l}, lambda: o.sed_flux_delta_approx(nu), "erg cm-2 s-1",
                    watch={"nu": nu})
            g = gammas(rng, 3)
            part = "ep"[k % 2]
            B = b.B
            kw = {} if part == "e" else {"mass": m_p}
            rec.obs(p.id, "nu_synch_peak", {"g": jl(g), "part": part}, lambda: nu_synch_peak(B, g, **kw), "Hz")
        elif what == "tau":
            nu, l = freqs(rng, 1e8, 1e16, bulk=0.1)
            gam = b.gamma_e
            rec.obs(p.id, "tau_ssa", {"nu": l},
                    lambda: Synchrotron.evaluate_tau_ssa(nu, b.z, b.d_L, b.delta_D, b.B, b.R_b, b.n_e, *b.n_e.parameters,
                                                         integrator=o.integrator, gamma=gam), watch={"gamma": gam})
        elif what == "loss":
            g = gammas(rng, 4 if rng.random() < 0.8 else 300) if k > 1 else float(lu(rng, 2, 1e6))
            l = jl(np.atleast_1d(g))
            rec.obs(p.id, "electron_energy_loss_rate", {"g": l if len(l) < 9 else drv.Picked.some(rng, l)},
                    lambda: o.electron_energy_loss_rate(g), "erg s-1", watch={"g": g})
        elif p.proton.ok:
            q = p.proton
            q.rec.set(q.id, "blob", [n for n in ("b1", "b2") if w[n].ok and w[n].o is b][0],
                      lambda: setattr(q.o, "blob", b))
            if k == 1:
                q.set("rule", 0)
            nu, l = freqs(rng, 1e5, 1e19, bulk=0.1)
            rec.obs(q.id, "sed_flux", {"nu": l}, lambda: q.o.sed_flux(nu), "erg cm-2 s-1", watch={"nu": nu, "blob": b})
    ctx.validate(replay(ctx, beh, 5, start, look))
    ctx.assumptions += ["SEDs compared with relative tolerance 1e-6 (1e-5 with self-absorption, whose opacity is a cancelling sum)",
                        "observations are compared for frequency arrays (self-absorption does not accept a scalar frequency)"]


# ------------------------------------------------------------------ C06
def C06(ctx):
    design(ctx)
    beh = behaviours(ctx, "Proc", "SscObs", ctx.n(70, 500), 12, 4, 3, '{"b1"}')
    names = dict.fromkeys(["d1", "d3", "e2", "b2", "b1p"], True)

    def start(rec, rng, i):
        w = region_world(rec, rng, i, NOEMPTY, names, [12, 18, 24])
        for p, b in (("p", "b1"), ("q", "b2")):
            w[p] = Proc(rec, rng, p, "SynchrotronSelfCompton", SynchrotronSelfCompton, w[b], ssa=rng.random() < 0.5)
        return w

    def look(w, rec, rng, name, p, what, k):
        o, b = p.o, p.o.blob
        if what == "sed":
            nu, l = freqs(rng, 1e12, 1e28, None if k == 1 else 2, bulk=0.06)
            rec.obs(p.id, "sed_flux", {"nu": l}, lambda: o.sed_flux(nu), "erg cm-2 s-1",
                    watch={"nu": nu, "blob": b})["w"] = 3 + len(l)
        elif what == "static":
            if rng.random() < 0.25:
                nu, l = freqs(rng, 1e15, 1e26, 1)
                ssa, rule = bool(rng.random() < 0.5), ["trapz", "loglog"][int(rng.random() < 0.3)]
                kw = {"ssa": ssa, "integrator": RULES[rule]} if k > 1 else {}
                a = {"nu": l, "ssa": ssa if kw else False, "rule": rule if kw else "trapz"}
                rec.obs(p.id, "sed_flux_static", a, lambda: static_call(SynchrotronSelfCompton, o, nu, **kw),
                        "erg cm-2 s-1")["w"] = 20
            from agnpy.compton.kernels import isotropic_kernel
            g, e, s = lu(rng, 1.5, 1e7), lu(rng, 1e-10, 1), 0
            s = g * rng.uniform(0.001, 1.2) if k % 2 else 4 * g * g * e * rng.uniform(0.01, 1.2)
            rec.obs("lib", "isotropic_kernel", {"g": j(g), "eps": j(e), "epsS": j(s)},
                    lambda: isotropic_kernel(np.array(g), np.array(e), np.array(s)))
        elif what == "loss":
            g = 10 ** rng.uniform(0.5, 8, 5) if k > 1 else np.array([lu(rng, 2, 1e8)])
            rec.obs(p.id, "electron_energy_loss_rate", {"g": jl(g)},
                    lambda: o.electron_energy_loss_rate(g), "erg s-1", watch={"g": g})["w"] = 10
        else:
            g = gammas(rng, 4)
            rec.obs(p.id, "electron_energy_loss_rate_thomson", {"g": jl(g)},
                    lambda: o.electron_energy_loss_rate_thomson(g), "erg s-1", watch={"g": g})
    ctx.validate(replay(ctx, beh, 6, start, look))
    ctx.assumptions += ["SEDs compared with relative tolerance 1e-6 (1e-5 with self-absorption)",
                        "Lorentz factor grids of 12 to 24 points for the region (200 for the default-grid calls)"]


# ------------------------------------------------------------------ C08
class EcProc(Proc):
    """external Compton with the interface of the region's own processes"""

    def __init__(self, rec, rng, id, blob, kind):
        from c_target import Target, EC
        self.t = Target(rec, rng, id + "t", kind)
        self.t.pinned = True
        self.r = r = as_unit(rng, self.t.distance() if self.t.ok else 1e17, LEN)

        def make(b, **kw):
            return EC.make(b_wrap(b), self.t, {"r": r, **kw})
        if not self.t.ok:
            self.ok = False
            return
        super().__init__(rec, rng, id, "ExternalCompton", make, blob, t=self.t.id, r=j(r.to_value("cm")), nmu=8, nphi=6)


    def twin(self):
        from c_target import EC
        return EC.make(b_wrap(self.blob.twin()), b_wrap(self.t.twin()), {"r": self.r, "integrator": RULES[self.rule]})


class b_wrap:
    """gives a region the interface of its wrapper"""
    def __init__(self, o):
        self.o = o


PROCS = ["Synchrotron", "ProtonSynchrotron", "SynchrotronSelfCompton", "ExternalCompton"]
BAND = {"Synchrotron": (1e9, 1e19), "ProtonSynchrotron": (1e6, 1e18), "SynchrotronSelfCompton": (1e14, 1e27),
        "ExternalCompton": (1e15, 1e27)}


def make_proc(rec, rng, id, cls, blob, kind="CMB"):
    if cls == "ExternalCompton":
        return EcProc(rec, rng, id, blob, kind)
    C = {"Synchrotron": Synchrotron, "ProtonSynchrotron": ProtonSynchrotron,
         "SynchrotronSelfCompton": SynchrotronSelfCompton}[cls]
    return Proc(rec, rng, id, cls, C, blob, ssa=(rng.random() < 0.5) if cls[0] == "S" else None)


@drv.argument
def band_limit(rng, x):
    """a band limit given as frequency, energy or wavelength"""
    q = x * u.Hz
    kind = ["Hz", "eV", "cm"][int(rng.integers(3))]
    if kind == "eV":
        q = q.to(["eV", "keV", "GeV", "J"][int(rng.integers(4))], equivalencies=u.spectral())
    elif kind == "cm":
        q = q.to(["cm", "nm", "m", "Angstrom"][int(rng.integers(4))], equivalencies=u.spectral())
    elif rng.random() < 0.5:
        q = q.to("GHz")
    return q, {"kind": kind, "v": j(q.to_value(kind))}


BANDU = [u.Unit(x) for x in ("Hz", "kHz", "GHz", "THz", "eV", "keV", "MeV", "GeV", "J", "erg", "cm", "nm", "um", "m", "Angstrom")]


def relation(rec, rng, p, what, k):
    from c_target import KINDS
    o = p.o
    lo, hi = BAND[p.cls]
    S = lambda nu: jl(np.asarray(o.sed_flux(nu).to_value("erg cm-2 s-1")))
    W = {"blob": o.blob}
    if what in ("lum", "diff"):
        nu, l = freqs(rng, lo, hi)
        name = "sed_luminosity" if what == "lum" else "diff_energy_flux"
        rec.obs(p.id, name, {"nu": l, "sed": S(nu)}, lambda: getattr(o, name)(nu),
                "erg s-1" if what == "lum" else "eV-1 cm-2 s-1", watch={**W, "nu": nu})
    elif what in ("eint", "fint"):
        a = lu(rng, lo, hi)
        b = a * (lu(rng, 2, 1e6) if rng.random() < 0.8 else lu(rng, 1.01, 1.3))
        qa, ra = band_limit(rng, a)
        qb, rb = band_limit(rng, b)
        n = [50, int(rng.integers(3, 30)), 50][int(rng.integers(3))]
        kw = {} if n == 50 and rng.random() < 0.6 else {"nu_points": n}
        grid = np.logspace(np.log10(qa.to_value("Hz", equivalencies=u.spectral())),
                           np.log10(qb.to_value("Hz", equivalencies=u.spectral())), n)
        name, unit = ("energy_flux_integral", "erg cm-2 s-1") if what == "eint" else ("flux_integral", "cm-2 s-1")
        rec.obs(p.id, name, {"lo": ra, "hi": rb, "n": n, "nu": jl(grid), "sed": S(grid * u.Hz)},
                lambda: getattr(o, name)(qa, qb, **kw), unit, watch=W)
        if rng.random() < 0.3:          # at once the same numbers in other units
            us = [(x, (qa.value * x, qb.value * y)) for x in BANDU for y in BANDU]
            us = [(q, [z.to_value("Hz", equivalencies=u.spectral()) for z in q]) for _, q in us]
            us = [q for q, (x, y) in us if lo <= x and 1.001 * x < y <= hi and (q[0].unit, q[1].unit) != (qa.unit, qb.unit)]
            if us:
                qa, qb = us[int(rng.integers(len(us)))]
                ra, rb = [{"kind": x, "v": j(q.to_value(x))} for q in (qa, qb)
                          for x in ("Hz", "eV", "cm") if u.Unit(x).is_equivalent(q.unit)]
                grid = np.logspace(*[np.log10(q.to_value("Hz", equivalencies=u.spectral())) for q in (qa, qb)], n)
                rec.obs(p.id, name, {"lo": ra, "hi": rb, "n": n, "nu": jl(grid), "sed": S(grid * u.Hz)},
                        lambda: getattr(o, name)(qa, qb, **kw), unit, watch=W)
    elif p.cls != "ExternalCompton":
        both = rng.random() < 0.5       # then the other one, for the very same frequencies
        nu, l = freqs(rng, lo, hi, int(rng.choice([10, 40, 80] if both else [1, 3, 10, 40])))
        for m in ([k, 3 - k] if both and k in (1, 2) else [k]):
            if m != k and rng.random() < 0.6:
                f, b = ["B", "delta_D", "R_b"][int(rng.integers(3))], p.blob
                b.table[(f, ("far", len(b.table)))] = b.arg(f, b.pick(f))
                b.set(*list(b.table)[-1])
            a = {"nu": l, "sed": S(nu)}
            if m == 1:
                rec.obs(p.id, "sed_peak_flux", a, lambda: o.sed_peak_flux(nu), "erg cm-2 s-1", watch={**W, "nu": nu})
            else:
                a["got"] = 0.0
                ev = rec.obs(p.id, "sed_peak_nu", a, lambda: o.sed_peak_nu(nu), "Hz", watch={**W, "nu": nu})
                if ev["res"]:
                    a["got"] = ev["res"][0]


def C08(ctx):
    from c_target import KINDS
    design(ctx)
    beh = behaviours(ctx, "Proc", "RelObs", ctx.n(150, 2000), 16, 2, 3, '{"b1"}')
    names = dict.fromkeys(["d1", "d3", "e2", "b2", "b1p"], True)

    def start(rec, rng, i):
        w = region_world(rec, rng, i, ALL if i % 5 == 0 else NOEMPTY, names, [12, 24])
        for p, b, n in (("p", "b1", 0), ("q", "b2", 1 + i // 4)):
            cls = PROCS[(i + n) % 4]
            if cls in ("Synchrotron", "SynchrotronSelfCompton") and any(
                    w[x].ok and type(w[x].o).__name__ == "EmptyDistribution" for x in ("d1", "e1", "e2")):
                cls = "ProtonSynchrotron"
            w[p] = make_proc(rec, rng, p, cls, w[b], KINDS[(i // 4) % 5])
        return w

    def look(w, rec, rng, name, p, what, k):
        relation(rec, rng, p, what, k)
    ctx.validate(replay(ctx, beh, 8, start, look))
    ctx.assumptions += ["the SED of each process is judged by C05, C06 and C07; here it is recorded next to every call",
                        "frequencies are frequencies; band limits are frequencies, energies or wavelengths"]
