"""C07 external Compton, C10 photon targets, C11 opacities on targets."""
import numpy as np
import astropy.units as u
from astropy.constants import M_sun, G, c
from astropy.coordinates import Distance
import tlc, drv
from drv import j, jl, val
from objs import *
from c_dist import ALL, design, behaviours
from agnpy.targets import (CMB, PointSourceBehindJet, SSDisk, SphericalShellBLR, RingDustTorus,
                           lines_dictionary)
from agnpy.compton import ExternalCompton
from agnpy.absorption import Absorption
from agnpy.emission_regions import Blob

NOEMPTY = [c for c in ALL if c != "EmptyDistribution"]
KINDS = ["CMB", "PointSourceBehindJet", "SSDisk", "SphericalShellBLR", "RingDustTorus"]
TCLS = {k: globals()[k] for k in KINDS}
LUM = ["erg s-1", "W", "erg s-1", "L_sun"]
LINES = list(lines_dictionary)
ATT = {"PointSourceBehindJet": {"L": "L_0", "q": "epsilon_0"},
       "SphericalShellBLR": {"L": "L_disk", "q": "xi_line", "R": "R_line"},
       "RingDustTorus": {"L": "L_disk", "q": "xi_dt", "R": "R_dt"}}
SPECF = {"PointSourceBehindJet": {"L": "L", "q": "eps"}, "SphericalShellBLR": {"L": "L", "q": "xi", "R": "R"},
         "RingDustTorus": {"L": "L", "q": "xi", "R": "R"}}
BU = {"L": "erg s-1", "R": "cm"}


class Target:
    """a photon target; `make` (re)builds it, `set` changes it"""

    def __init__(self, rec, rng, id, kind, far=False):
        self.rec, self.rng, self.id, self.kind, self.far, self.table = rec, rng, id, kind, far, {}
        self.pos = {}
        self.build()

    @property
    def o(self):
        return self.rec.objs[self.id]

    def build(self):
        rng, k = self.rng, self.kind
        L = as_unit(rng, lu(rng, 1e43, 1e47), LUM)
        xi = number(rng, float(rng.choice([0.1, 1, lu(rng, 1e-3, 1)])))
        Lc = j(L.to_value("erg s-1"))
        if k == "CMB":
            z = number(rng, float(rng.choice([0, 1, lu(rng, 1e-2, 6)])))
            par, mk = {"z": j(z)}, lambda: CMB(z=z)
        elif k == "PointSourceBehindJet":
            e = number(rng, lu(rng, 1e-7, 1e-2))
            par, mk = {"L": Lc, "eps": j(e)}, lambda: PointSourceBehindJet(L, e)
        elif k == "SSDisk":
            M = as_unit(rng, lu(rng, 1e6, 1e10) * M_sun.to_value("g"), ["g", "kg", "M_sun"])
            eta = number(rng, float(rng.choice([1 / 12, rng.uniform(0.05, 0.42)])))
            a, b = float(rng.choice([3, 6, rng.uniform(1.5, 20)])), float(rng.choice([200, lu(rng, 50, 2e3)]))
            par = {"M": j(M.to_value("g")), "L": Lc, "eta": j(eta)}
            if rng.random() < 0.5:
                a, b = [int(a) if a == int(a) and rng.random() < 0.5 else a, int(b) if rng.random() < 0.3 else b]
                par.update(RinT=j(a), RoutT=j(b))
                mk = lambda: SSDisk(M, L, eta, a, b, R_g_units=True)
            else:
                Rg = (G * M / c ** 2).to_value("cm")
                A, B = as_unit(rng, a * Rg, LEN), as_unit(rng, b * Rg, LEN)
                par.update(Rin=j(A.to_value("cm")), Rout=j(B.to_value("cm")))
                mk = lambda: SSDisk(M, L, eta, A, B)
        elif k == "SphericalShellBLR":
            line = LINES[int(rng.integers(len(LINES)))]
            R = as_unit(rng, lu(rng, 1e16, 1e18), LEN)
            par = {"L": Lc, "xi": j(xi), "line": line, "R": j(R.to_value("cm"))}
            mk = lambda: SphericalShellBLR(L, xi, line, R)
        else:
            T = as_unit(rng, lu(rng, 200, 2000), ["K", "kK", "K"])
            par = {"L": Lc, "xi": j(xi), "T": j(T.to_value("K"))}
            if rng.random() < 0.5:
                R = as_unit(rng, lu(rng, 1e17, 1e19), LEN)
                par["R"] = j(R.to_value("cm"))
                mk = lambda: RingDustTorus(L, xi, T, R)
            else:
                mk = lambda: RingDustTorus(L, xi, T)
        self.par, self.before, self.mk, self.cur = par, drv.digest([L]), mk, {}
        self.ok = self.rec.new(self.id, k, dict(par), mk)
        if self.ok and k == "SphericalShellBLR":
            self.rec.obs(self.id, "eps", {}, lambda: self.o.epsilon_line)

    def twin(self):
        """an independent target with the same parameters"""
        o = self.mk()
        for f, x in self.cur.items():
            setattr(o, f, x)
        return o

    pinned = False          # held by a process which is not told of a replacement

    def fields(self, rng):
        f = "LqR"[int(rng.integers(3))]
        if self.pinned and f not in ATT.get(self.kind, {}):
            f = "q" if self.kind in ATT else None
        return f, ("jolt", len(self.table))

    def set(self, f, v):
        """in-place change of an independent attribute, otherwise a new object"""
        k = self.kind
        if k == "RingDustTorus" and f in ("L", "R") and "R" not in self.par:
            f = "q"                        # radius tied to the luminosity at construction
        if f not in ATT.get(k, {}):
            return self.build()
        key = (f, v)
        if key not in self.table:
            old = self.par.get(SPECF[k][f])
            near = nearby(self.rng, None if old is None else float(old), {"q": -1}.get(f, 0))
            if near is not None:
                self.table[key] = number(self.rng, near) if f == "q" else as_unit(self.rng, near, LUM if f == "L" else LEN)
            elif f == "L":
                self.table[key] = as_unit(self.rng, lu(self.rng, 1e43, 1e47), LUM)
            elif f == "R":
                self.table[key] = as_unit(self.rng, lu(self.rng, 1e16, 1e18), LEN)
            else:
                self.table[key] = number(self.rng, lu(self.rng, 1e-3, 1) * (1e-3 if k[0] == "P" else 1))
        x = self.table[key]
        s = j(x.to_value(BU[f]) if f in BU else x)
        sf = SPECF[k][f]
        self.par[sf] = s
        self.cur[ATT[k][f]] = x
        self.rec.set(self.id, sf, s, lambda: setattr(self.o, ATT[k][f], x))

    # ---- sizes used to place the emission region
    def scale(self):
        k = self.kind
        if k == "SSDisk":
            return float(self.o.R_g.to_value("cm"))
        if k == "SphericalShellBLR":
            return float(self.o.R_line.to_value("cm"))
        if k == "RingDustTorus":
            return float(self.o.R_dt.to_value("cm"))
        return 1e17

    def distance(self, inside=True):
        """a distance (cm) of the region, not too close to a shell"""
        rng, k = self.rng, self.kind
        R = self.scale()
        if k == "SSDisk":
            return R * lu(rng, 5, 3e3) * self.o.R_in_tilde / 6
        if k == "SphericalShellBLR":
            x = lu(rng, 0.02, 50) if inside else lu(rng, 1.05, 50)
            return R * (x if abs(x - 1) > 0.02 else 1.3)
        return R * lu(rng, 0.02, 30)


def torus(rec, rng, id):
    return Target(rec, rng, id, "RingDustTorus")


def small_region(rec, rng, i, names=("b1",), ge=20, gmax=50.0):
    d = Dist(rec, rng, "d1", NOEMPTY[i % len(NOEMPTY)])
    b = BlobObj(rec, rng, "b1", d, sizes=[ge], gmax=gmax)
    return d, b


# ------------------------------------------------------------------ C10
def target_obs(rec, rng, t, b, what, k):
    if not t.ok:
        return
    o, id = t.o, t.id
    W = {"target": o}
    if what in ("u", "ublob"):
        a, blob = {}, None
        if what == "ublob":
            if not b.ok:
                return
            blob, a["blob"] = b.o, "b1"
        if t.kind == "CMB":
            rec.obs(id, "u", {**a, "r": [0]}, lambda: o.u(blob), "erg cm-3", watch=W)
            return
        n = 1 if k == 1 else int(rng.integers(1, 5))
        r = np.array([t.distance() for _ in range(n)])
        if t.kind == "SSDisk":           # one mu range per distance
            r = r[:1]
            q = as_unit(rng, float(r[0]), LEN)
        elif t.kind == "SphericalShellBLR" or rng.random() < 0.6:
            q = as_unit(rng, r, LEN)
        else:
            r = r[:1]
            q = as_unit(rng, float(r[0]), LEN)
        rec.obs(id, "u", {**a, "r": jl(np.atleast_1d(q.to_value("cm")))},
                lambda: o.u(q, blob) if blob is not None or rng.random() < 0.5 else o.u(q), "erg cm-3",
                watch={**W, "r": q})
    elif what == "derived":
        if t.kind == "CMB":
            rec.obs(id, "eps", {}, lambda: o.epsilon_0)
        elif t.kind == "PointSourceBehindJet":
            rec.obs(id, "eps", {}, lambda: o.epsilon_0)
        elif t.kind == "SphericalShellBLR":
            rec.obs(id, "eps", {}, lambda: o.epsilon_line)
            e = lines_dictionary[o.line]
            rec.obs(id, "line", {}, lambda: [e["lambda"].to_value("Angstrom"), e["R_Hbeta_ratio"], e["L_Hbeta_ratio"]])
        elif t.kind == "RingDustTorus":
            rec.obs(id, "eps", {}, lambda: o.epsilon_dt)
            rec.obs(id, "radius", {}, lambda: o.R_dt, "cm")
        else:
            rec.obs(id, "disk", {}, lambda: [x.to_value(w) for x, w in (
                (o.m_dot, "g s-1"), (o.R_g, "cm"), (o.l_Edd * u.one, ""), (o.L_Edd, "erg s-1"), (o.M_8 * u.one, ""),
                (o.R_in, "cm"), (o.R_out, "cm"), (o.R_in_tilde * u.one, ""), (o.R_out_tilde * u.one, ""))])
            R = o.R_in_tilde * 10 ** rng.uniform(0.02, 3, 4)
            rec.obs(id, "disk_eps", {"R": jl(R)}, lambda: o.epsilon(R), watch={"R": R})
            rec.obs(id, "disk_phi", {"R": jl(R)}, lambda: o.phi_disk(R), watch={"R": R})
            q = as_unit(rng, R * o.R_g.to_value("cm"), LEN)
            rec.obs(id, "disk_T", {"R": jl(q.to_value("cm"))}, lambda: o.T(q), "K", watch={"R": q})
            rt = lu(rng, 5, 3e3)
            n = int(rng.choice([2, 7, 100]))
            rec.obs(id, "disk_mu", {"rt": j(rt), "n": n},
                    lambda: o.evaluate_mu_from_r_tilde(o.R_in_tilde, o.R_out_tilde, rt, size=n))
            mu = o.evaluate_mu_from_r_tilde(o.R_in_tilde * 1.05, o.R_out_tilde, rt, size=5)
            rec.obs(id, "disk_eps_mu", {"rt": j(rt), "mu": jl(mu)}, lambda: o.epsilon_mu(mu, rt))
            rec.obs(id, "disk_phi_mu", {"rt": j(rt), "mu": jl(mu)}, lambda: o.phi_disk_mu(mu, rt))
    elif t.kind in ("SSDisk", "RingDustTorus"):
        z = number(rng, float(rng.choice([0.069, 1, lu(rng, 0.01, 3)])))
        nu, l = freqs(rng, 1e10, 1e17, bulk=0.12)
        disk = t.kind == "SSDisk"
        mus = number(rng, float(rng.choice([1, rng.uniform(0.1, 1)]))) if disk else 1
        a = {"nu": l, "z": j(z), "dL": j(Distance(z=z).to_value("cm")), "mus": j(mus)}
        kw = {"mu_s": mus} if disk and rng.random() < 0.8 else {}
        if disk and not kw:
            a["mus"] = 1
        if k == 1:
            rec.obs(id, "sed", a, lambda: o.sed_flux(nu, z, **kw), "erg cm-2 s-1", watch={**W, "nu": nu})
        elif k == 2:
            dL = as_unit(rng, lu(rng, 1e26, 1e28), ["cm", "Mpc", "Gpc"])
            a["dL"] = j(dL.to_value("cm"))
            if disk:
                fn = lambda: SSDisk.evaluate_multi_T_bb_sed(nu, z, o.M_BH, o.m_dot, o.R_in, o.R_out, dL, **kw)
            else:
                fn = lambda: RingDustTorus.evaluate_bb_sed(nu, z, o.T_dt, o.R_dt, dL)
            rec.obs(id, "sed_raw", a, fn, "erg cm-2 s-1", watch={**W, "nu": nu})
        else:
            dL = as_unit(rng, lu(rng, 1e26, 1e28), ["cm", "Mpc", "Gpc"])
            a["dL"] = j(dL.to_value("cm"))
            if disk:
                fn = lambda: SSDisk.evaluate_multi_T_bb_norm_sed(nu, z, o.L_disk, o.M_BH, o.m_dot, o.R_in, o.R_out, dL, **kw)
            else:
                fn = lambda: RingDustTorus.evaluate_bb_norm_sed(nu, z, o.xi_dt * o.L_disk, o.T_dt, o.R_dt, dL)
            rec.obs(id, "sed", a, fn, "erg cm-2 s-1", watch={**W, "nu": nu})


def ec_actions(w, a, look):
    """perform an action of the Ec family"""
    kind, name = a[0], a[1]
    o = w.get(name)
    if o is None or not o.ok:
        return
    if kind == "set":
        o.set(a[2], a[3])
    elif kind == "joint":
        o.doppler(a[2])
    elif kind in ("obs", "again"):
        w["looks"].jolt = lambda: jolt(w["looks"].rng, w, name)
        w["looks"](kind, lambda: look(name, a[2], a[3]))


def C10(ctx):
    design(ctx)
    beh = behaviours(ctx, "Ec", "TgtObs", ctx.n(200, 1500), 12, 3, 3, '{"b1"}')
    sessions = []
    for i, b in enumerate(beh):
        rec = drv.Recorder()
        rng = np.random.default_rng([ctx.seed, 10, i])
        rec.reset()
        d, blob = small_region(rec, rng, i)
        w = {"looks": drv.Looks(rng), "b1": blob, "d1": d, "t": Target(rec, rng, "t", KINDS[i % 5])}
        for a in b:
            ec_actions(w, a, lambda n, what, k: target_obs(rec, rng, w["t"], blob, what, k))
        sessions.append(rec.events)
    # the whole table of emission lines
    rec = drv.Recorder()
    rec.reset()
    rng = np.random.default_rng([ctx.seed, 10])
    for n, line in enumerate(LINES):
        id = "l%d" % n
        rec.new(id, "SphericalShellBLR", {"L": 1.5e45, "xi": 0.1, "line": line, "R": 1.5e17},
                lambda: SphericalShellBLR(1.5e45 * u.Unit("erg s-1"), 0.1, line, 1.5e17 * u.cm))
        t = Target.__new__(Target)
        t.rec, t.rng, t.id, t.kind, t.ok = rec, rng, id, "SphericalShellBLR", id in rec.objs
        target_obs(rec, rng, t, None, "derived", 1)
    sessions.append(rec.events)
    ctx.validate(sessions)
    ctx.assumptions += ["energy densities and SEDs compared with relative tolerance 1e-6",
                        "distances from the line region's shell of at least 2% (the density diverges there)",
                        "targets are replaced, not edited, to change parameters cached at construction (disk, torus temperature, line)"]


# ------------------------------------------------------------------ C07
class EC:
    def __init__(self, rec, rng, id, blob, t):
        self.rec, self.rng, self.id, self.t, self.blob = rec, rng, id, t, blob
        self.rule = "loglog" if rng.random() < 0.35 else "trapz"
        kw = {"integrator": RULES[self.rule]} if self.rule == "loglog" or rng.random() < 0.5 else {}
        r = as_unit(rng, t.distance(), LEN)
        if t.kind != "CMB" or rng.random() < 0.3:
            kw["r"] = r
        self.nmu, self.nphi = 8, 6
        par = {"blob": blob.id, "t": t.id, "r": j(r.to_value("cm")), "rule": self.rule, "nmu": 8, "nphi": 6}
        self.ok = blob.ok and t.ok and rec.new(id, "ExternalCompton", par, lambda: self.make(blob, t, kw))

    @staticmethod
    def make(blob, t, kw):
        o = ExternalCompton(blob.o, t.o, **kw)
        o.set_mu(8)
        o.set_phi(6)
        return o

    @property
    def o(self):
        return self.rec.objs[self.id]

    def fields(self, rng):
        return ["r", "r", "x"][int(rng.integers(3))], int(rng.integers(3))

    def set(self, f, v):
        rec, rng, o, id = self.rec, self.rng, self.o, self.id
        if f == "r":
            near = None if o.r is None else nearby(rng, o.r.to_value("cm"), 1 if o.r > 1.05 * self.t.scale() * u.cm else -1)
            r = as_unit(rng, self.t.distance() if near is None else near, LEN)
            rec.set(id, "r", j(r.to_value("cm")), lambda: setattr(o, "r", r))
        elif v == 0:
            self.rule = "trapz" if self.rule == "loglog" else "loglog"
            rec.set(id, "rule", self.rule, lambda: setattr(o, "integrator", RULES[self.rule]))
        elif v == 1:
            self.nmu = [8, 5, 11][int(rng.integers(3))]
            rec.set(id, "nmu", self.nmu, lambda: o.set_mu(mu_size=self.nmu))
        else:
            self.nphi = [6, 4, 9][int(rng.integers(3))]
            rec.set(id, "nphi", self.nphi, lambda: o.set_phi(phi_size=self.nphi))

    def retarget(self):
        """the target object was replaced: hand the new one to the process"""
        if self.o.target is not self.t.o:
            self.rec.set(self.id, "t", self.t.id, lambda: setattr(self.o, "target", self.t.o))


def ec_static(o, nu, g, rule, nmu, nphi):
    b, t, r = o.blob, o.target, o.r
    n = type(b.n_e) if type(b.n_e).__name__ in SHAPE else b.n_e
    mu, phi = np.linspace(-1, 1, nmu), np.linspace(0, 2 * np.pi, nphi)
    com = (nu, b.z, b.d_L, b.delta_D, b.mu_s, b.R_b)
    kw = dict(integrator=RULES[rule], gamma=g)
    par = b.n_e.parameters
    if isinstance(t, CMB):
        return ExternalCompton.evaluate_sed_flux_iso_mono(*com, t.epsilon_0, t.u_0, n, *par, mu=mu, phi=phi, **kw)
    if isinstance(t, PointSourceBehindJet):
        return ExternalCompton.evaluate_sed_flux_ps_behind_jet(*com, t.epsilon_0, t.L_0, r, n, *par, **kw)
    if isinstance(t, SSDisk):
        return ExternalCompton.evaluate_sed_flux_ss_disk(*com, t.M_BH, t.L_disk, t.eta, t.R_in, t.R_out, r, n, *par,
                                                         mu_size=nmu, phi=phi, **kw)
    if isinstance(t, SphericalShellBLR):
        return ExternalCompton.evaluate_sed_flux_blr(*com, t.L_disk, t.xi_line, t.epsilon_line, t.R_line, r, n, *par,
                                                     mu=mu, phi=phi, **kw)
    return ExternalCompton.evaluate_sed_flux_dt(*com, t.L_disk, t.xi_dt, t.epsilon_dt, t.R_dt, r, n, *par, phi=phi, **kw)


OWN = {"CMB": "sed_flux_cmb", "PointSourceBehindJet": "sed_flux_ps_behind_jet", "SSDisk": "sed_flux_ss_disk",
       "SphericalShellBLR": "sed_flux_blr", "RingDustTorus": "sed_flux_dt"}


def kernel_obs(rec, rng):
    from agnpy.compton.kernels import compton_kernel, get_gamma_min
    e, mus, mu, phi = lu(rng, 1e-8, 1e-2), rng.uniform(-0.99, 0.99), rng.uniform(-0.99, 0.99), rng.uniform(0, 6.3)
    eS = lu(rng, 1e-3, 1e8)
    gm = float(get_gamma_min(eS, e, mus, mu, phi))
    g = gm * (rng.uniform(0.3, 0.999) if rng.random() < 0.4 else lu(rng, 1.001, 1e3))
    a = {"g": j(g), "eps": j(e), "epsS": j(eS), "mus": j(mus), "mu": j(mu), "phi": j(phi)}
    rec.obs("lib", "compton_kernel", a, lambda: compton_kernel(np.array([g]), eS, e, mus, mu, phi))
    rec.obs("lib", "get_gamma_min", a, lambda: gm)


def C07(ctx):
    design(ctx)
    beh = behaviours(ctx, "Ec", "EcObs", ctx.n(120, 900), 10, 4, 3, '{"b1"}')
    sessions = []
    for i, b in enumerate(beh):
        rec = drv.Recorder()
        rng = np.random.default_rng([ctx.seed, 7, i])
        rec.reset()
        d, blob = small_region(rec, rng, i, gmax=30)
        t = Target(rec, rng, "t", KINDS[i % 5])
        w = {"looks": drv.Looks(rng), "b1": blob, "d1": d, "t": t}
        if t.ok:
            w["p"] = EC(rec, rng, "p", blob, t)

        def look(name, what, k):
            p = w["p"]
            p.retarget()
            o = p.o
            nu, l = freqs(rng, 1e15, 1e28, int(rng.choice([1, 2, 3, 5])), bulk=0.08)
            W = {"nu": nu, "blob": blob.o, "target": t.o}
            cost = 6 * len(l)
            if k < 3:
                rec.obs("p", "sed_flux", {"nu": l}, lambda: o.sed_flux(nu), "erg cm-2 s-1", watch=W)["w"] = cost
            elif k == 3:
                rec.obs("p", "sed_flux", {"nu": l}, lambda: getattr(o, OWN[t.kind])(nu), "erg cm-2 s-1", watch=W)["w"] = cost
            else:
                n = int(rng.choice([15, 25]))
                lo, hi = lu(rng, 1.5, 30), lu(rng, 1e4, 1e7)
                g = np.logspace(np.log10(lo), np.log10(hi), n)
                nmu, nphi = int(rng.integers(3, 9)), int(rng.integers(3, 7))
                rule = ["trapz", "loglog"][int(rng.random() < 0.4)]
                rec.obs("p", "sed_flux_static",
                        {"nu": l, "rule": rule, "nmu": nmu, "nphi": nphi, "g": [j(lo), j(hi), n]},
                        lambda: ec_static(o, nu, g, rule, nmu, nphi), "erg cm-2 s-1", watch={**W, "gamma": g})["w"] = cost
            kernel_obs(rec, rng)
        if "p" in w and w["p"].ok:
            for a in b:
                if a[0] in ("obs", "again") and not w["t"].ok:
                    continue
                ec_actions(w, a, look)
        sessions.append(rec.events)
    ctx.validate(sessions)
    ctx.assumptions += ["SEDs compared with relative tolerance 1e-5",
                        "angle grids of 4 to 11 points and 15 to 25 Lorentz factors (the default 100 x 50 grids run the same code)",
                        "disk at heights of 5 to 3000 inner radii"]


# ------------------------------------------------------------------ C11
class Abs:
    def __init__(self, rec, rng, id, t, blob):
        self.rec, self.rng, self.id, self.t = rec, rng, id, t
        self.synch = t is blob
        z = number(rng, float(rng.choice([0, 1, 0.5, lu(rng, 1e-2, 3)])))
        mus = 1
        if not self.synch and t.kind not in ("SSDisk",) and rng.random() < 0.5:
            mus = self.angle()
        par = {"t": t.id, "z": j(z), "mu_s": j(mus), "nmu": 7, "nphi": 6, "nl": 9, "r": 0}
        kw = {}
        if not self.synch:
            r = self.dist()
            kw["r"], par["r"] = r, j(r.to_value("cm"))
        if z != 0 or rng.random() < 0.5:
            kw["z"] = z
        if mus != 1 or rng.random() < 0.5:
            kw["mu_s"] = mus
        self.ok = t.ok and rec.new(id, "Absorption", par, lambda: self.make(t, kw))

    def angle(self):
        a = lu(self.rng, 0.03, 80) if self.rng.random() < 0.85 else self.rng.uniform(80, 150)
        return float(np.cos(np.radians(a)))

    def dist(self):
        t = self.t
        r = t.distance()
        if t.kind == "SphericalShellBLR" and self.rng.random() < 0.2:
            r = t.scale() * float(self.rng.choice([1, 1 + 5e-5, 1 - 5e-5, 1 + 2e-4]))
        return as_unit(self.rng, r, LEN)

    @staticmethod
    def make(t, kw):
        o = Absorption(t.o, **kw)
        o.set_mu(7)
        o.set_phi(6)
        o.set_l(9)
        return o

    @property
    def o(self):
        return self.rec.objs[self.id]

    def fields(self, rng):
        return ["r", "r", "x"][int(rng.integers(3))], int(rng.integers(3))

    def set(self, f, v):
        rec, rng, o, id = self.rec, self.rng, self.o, self.id
        if f == "r" and not self.synch:
            near = None if o.r is None else nearby(rng, o.r.to_value("cm"), 1 if o.r > 1.05 * self.t.scale() * u.cm else -1)
            r = self.dist() if near is None else as_unit(rng, near, LEN)
            rec.set(id, "r", j(r.to_value("cm")), lambda: setattr(o, "r", r))
        elif v == 0:
            near = nearby(rng, o.z or None, 1)
            z = number(rng, float(rng.choice([0, 1, lu(rng, 1e-2, 3)])) if near is None else near)
            rec.set(id, "z", j(z), lambda: setattr(o, "z", z))
        elif v == 1 and not self.synch and self.t.kind != "SSDisk":
            near = nearby(rng, o.mu_s if o.mu_s != 1 else None, -1)
            mus = near if near is not None else self.angle() if rng.random() < 0.6 else [1, 1.0][int(rng.integers(2))]
            rec.set(id, "mu_s", j(mus), lambda: setattr(o, "mu_s", mus))
        else:
            f, lo, m = [("nmu", 5, o.set_mu), ("nphi", 4, o.set_phi), ("nl", 5, o.set_l)][int(rng.integers(3))]
            n = int(rng.integers(lo, lo + 6))
            rec.set(id, f, n, lambda: m(n))

    def retarget(self):
        if self.o.target is not self.t.o:
            self.rec.set(self.id, "t", self.t.id, lambda: setattr(self.o, "target", self.t.o))


def threshold(t):
    """typical frequency at which pair production on the target starts"""
    me = 1.2355899e20
    k, o = t.kind, t.o
    e = {"PointSourceBehindJet": lambda: o.epsilon_0, "SSDisk": lambda: float(o.epsilon(o.R_in_tilde * 5)),
         "SphericalShellBLR": lambda: o.epsilon_line, "RingDustTorus": lambda: o.epsilon_dt}[k]()
    return me / float(e)


def abs_obs(ctx, rec, rng, p, blob, what, k):
    p.retarget()
    o, t, id = p.o, p.t, p.id
    n = int(rng.choice([1, 2, 3])) if what != "tau" or rng.random() < 0.9 else int(rng.choice([70, 101, 150]))
    x = 10 ** rng.uniform(22, 29, n) if p.synch else threshold(t) * 10 ** rng.uniform(-1.5, 4, n)
    if not p.synch and t.kind == "PointSourceBehindJet" and o.mu_s != 1:
        x = threshold(t) * 2 / (1 - o.mu_s) * 10 ** rng.uniform(-0.5, 2, n)
    nu = np.minimum(x, 1e36) * u.Hz
    if rng.random() < 0.3:
        nu = nu.to("GHz")
    l = jl(nu.to_value("Hz"))
    if n > 3:
        l, n = drv.Picked.some(rng, l, 1), 3
    cost = 8 * n
    W = {"nu": nu, "target": t.o}
    if what == "tau":
        rec.obs(id, "tau", {"nu": l}, lambda: np.asarray(u.Quantity(o.tau(nu)).to_value("")), watch=W)["w"] = cost
    else:
        if k == 4:
            nu = nu * 1e-8                       # far below every threshold
        tau = np.asarray(u.Quantity(o.tau(nu)).to_value(""))
        if not np.all(np.isfinite(tau)):
            rec.obs(id, "tau", {"nu": jl(nu.to_value("Hz"))}, lambda: np.asarray(tau), watch=W)
            return
        a = {"tau": jl(tau)}
        rec.obs(id, "absorption", a, lambda: o.absorption(nu), watch=W)
        rec.obs(id, "absorption_homogeneous", a, lambda: o.absorption_homogeneous(nu), watch=W)


def sigma_obs(rec, rng):
    from agnpy.absorption import sigma
    s = np.concatenate([10 ** rng.uniform(-2, 6, 4), [1.0, rng.uniform(0.5, 1), 1 + lu(rng, 1e-6, 1)]])
    rng.shuffle(s)
    rec.obs("lib", "sigma", {"s": jl(s)}, lambda: sigma(s), "cm2", watch={"s": s})


def C11(ctx):
    design(ctx)
    beh = behaviours(ctx, "Ec", "AbsObs", ctx.n(130, 900), 10, 4, 3, '{"b1"}')
    sessions = []
    kinds = KINDS[1:] + ["Blob"]
    for i, b in enumerate(beh):
        rec = drv.Recorder()
        rng = np.random.default_rng([ctx.seed, 11, i])
        rec.reset()
        kind = kinds[i % 5]
        d, blob = small_region(rec, rng, i, gmax=30)
        blob.kind = "Blob"
        t = blob if kind == "Blob" else Target(rec, rng, "t", kind)
        w = {"looks": drv.Looks(rng), "b1": blob, "d1": d, "t": None if t is blob else t}
        if t.ok:
            w["p"] = Abs(rec, rng, "p", t, blob)
        if "p" in w and w["p"].ok:
            for a in b:
                if not t.ok:
                    break
                ec_actions(w, a, lambda n, what, k: abs_obs(ctx, rec, rng, w["p"], blob, what, k))
        sigma_obs(rec, rng)
        sessions.append(rec.events)
    # sanity of the opacity where the geometry is degenerate: rounding must not lose a point
    rec = drv.Recorder()
    rec.reset()
    rng = np.random.default_rng([ctx.seed, 11])
    for n in range(ctx.n(120, 600)):
        kind = ["SphericalShellBLR", "RingDustTorus", "PointSourceBehindJet", "SphericalShellBLR"][n % 4]
        t = Target(rec, rng, "t", kind)
        if not t.ok:
            continue
        f = float(rng.choice([1 / 3, 0.5, 1 / 7, 3, 1, 1 + 5e-5, lu(rng, 0.01, 30)]))
        mus = float(rng.choice([1, np.cos(np.radians(lu(rng, 1e-4, 90))), 0.0, 1 - 1e-12]))
        o = Absorption(t.o, r=t.scale() * f * u.cm, z=0.3, mu_s=mus)
        if rng.random() < 0.5:
            o.set_mu(int(rng.choice([11, 21, 50, 100])))
            o.set_phi(int(rng.choice([6, 11, 50])))
        nu = threshold(t) * 10 ** rng.uniform(-1, 3, 2) * u.Hz
        rec.objs["x"] = o
        rec.events.append({"op": "new", "id": "x", "cls": "Absorption", "par": {"t": "t"}, "err": ""})
        rec.obs("x", "tau", {"nu": jl(nu.value), "f": f, "mus": mus}, lambda: o.tau(nu))["sane"] = True
    sessions.append(rec.events)
    ctx.validate(sessions)
    ctx.assumptions += ["opacities compared with relative tolerance 1e-5, angle and path grids of 4 to 12 points",
                        "viewing angles of 0.03 to 150 degrees for value comparison (below, only finite and non-negative is required: the formula cancels)",
                        "no value is specified for the disk seen off axis (the library returns none)"]
