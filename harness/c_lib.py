"""C23: geometry, conversions and quadrature helpers."""
import numpy as np
import astropy.units as u
from astropy.constants import m_e, m_p, M_sun
import tlc, drv
from drv import j, jl
from objs import lu, as_unit, number, LEN
from agnpy.utils import geometry as geo
from agnpy.utils.conversion import nu_to_epsilon_prime, B_to_cgs, to_R_g_units, epsilon_equivalency
from agnpy.utils.math import axes_reshaper, trapz_loglog, power_law_integral, log as clog


def some(rng, *l):
    return l[int(rng.integers(len(l)))]


def geometry_obs(rec, rng):
    R = lu(rng, 1e14, 1e19)
    r = R * some(rng, lu(rng, 1e-4, 1e4), 1.0, 1 / 3, 0.5)
    uu = R * some(rng, 0.0, lu(rng, 1e-4, 1e3))
    mus = some(rng, 1.0, 0.0, -1.0, rng.uniform(-1, 1), np.cos(lu(rng, 1e-3, 1)), 1)
    mu = some(rng, 1.0, -1.0, 0.0, rng.uniform(-1, 1), rng.uniform(-1, 1))
    phi = some(rng, 0.0, np.pi, rng.uniform(0, 2 * np.pi), rng.uniform(0, 2 * np.pi))
    un = some(rng, "cm", "pc", "m")
    q = lambda x: (x * u.cm).to(un)
    a = {"r": j(r), "R": j(R), "u": j(uu), "mus": j(mus), "mu": j(mu), "phi": j(phi)}
    scale = r + R + uu
    arr = rng.random() < 0.5        # broadcast over an array of azimuths or cosines
    v = lambda x: np.array([0.123, x, -0.4]) if arr else x
    pick = (lambda x: np.atleast_1d(x)[1:2]) if arr else (lambda x: x)
    rec.obs("lib", "cos_psi", a, lambda: pick(geo.cos_psi(mus, v(mu), v(phi))))
    xs = np.sqrt(max(R * R + r * r - 2 * r * R * mu, 0))
    if xs > 1e-3 * scale:
        rec.obs("lib", "x_re_shell", a, lambda: pick(geo.x_re_shell(v(mu), q(R), q(r))), "cm")
        rec.obs("lib", "mu_star_shell", a, lambda: pick(geo.mu_star_shell(v(mu), q(R), q(r))))
    rec.obs("lib", "x_re_ring", a, lambda: geo.x_re_ring(q(R), q(r)), "cm")
    p = np.array([uu * np.sqrt(1 - mus * mus), 0, r + uu * mus])
    ring = p - np.array([R * np.cos(phi), R * np.sin(phi), 0])
    s = np.sqrt(1 - mu * mu)
    shell = p - R * np.array([s * np.cos(phi), s * np.sin(phi), mu])

    def vec(f, x, mu):
        mu = pick(mu)
        return np.ravel(x * np.array([np.sqrt(np.maximum(1 - mu * mu, 0)) * np.cos(f), np.sqrt(np.maximum(1 - mu * mu, 0)) * np.sin(f), mu]))

    if np.linalg.norm(ring) > 1e-3 * scale:
        rec.obs("lib", "x_re_ring_mu_s", a, lambda: pick(geo.x_re_ring_mu_s(q(R), q(r), v(phi), q(uu), mus)), "cm")

        def f():
            ph, m = geo.phi_mu_re_ring(q(R), q(r), v(phi), q(uu), mus)
            return vec(pick(u.Quantity(ph).to_value("rad")), np.linalg.norm(ring), u.Quantity(m).to_value(""))
        rec.obs("lib", "direction_ring", a, f)
    if np.linalg.norm(shell) > 1e-3 * scale:
        rec.obs("lib", "x_re_shell_mu_s", a, lambda: pick(geo.x_re_shell_mu_s(q(R), q(r), v(phi), v(mu), q(uu), mus)), "cm")

        def f():
            ph, m = geo.phi_mu_re_shell(q(R), q(r), v(phi), v(mu), q(uu), mus)
            return vec(pick(u.Quantity(ph).to_value("rad")), np.linalg.norm(shell), u.Quantity(m).to_value(""))
        rec.obs("lib", "direction_shell", a, f)


def conversion_obs(rec, rng):
    nu = 10 ** rng.uniform(6, 30, int(rng.integers(1, 5))) * u.Hz
    if rng.random() < 0.4:
        nu = nu.to("GHz")
    z, d = some(rng, 0, 1, lu(rng, 1e-3, 6)), some(rng, 1, 10, lu(rng, 0.5, 60))
    part = some(rng, "e", "p")
    m = {"e": m_e, "p": m_p}[part]
    kw = {"z": z, "delta_D": d, "m": m}
    if part == "e" and rng.random() < 0.5:
        del kw["m"]
    for f, dflt in (("z", 0), ("delta_D", 1)):
        if kw[f] == dflt and rng.random() < 0.5:
            del kw[f]
    l = jl(nu.to_value("Hz"))
    rec.obs("lib", "nu_to_epsilon_prime", {"nu": l, "z": j(z), "dD": j(d), "part": part},
            lambda: nu_to_epsilon_prime(nu, **kw), watch={"nu": nu})
    rec.obs("lib", "epsilon_inverse", {"nu": l},
            lambda: (nu_to_epsilon_prime(nu, m=m) * u.one).to("Hz", equivalencies=epsilon_equivalency(m)), "Hz")
    B = as_unit(rng, lu(rng, 1e-6, 1e3), ["G", "mG", "T", "uG"])
    rec.obs("lib", "B_to_cgs", {"v": j(B.to_value("G"))}, lambda: B_to_cgs(B), "cm(-1/2) g(1/2) s-1")
    M = as_unit(rng, lu(rng, 1e5, 1e11) * M_sun.to_value("g"), ["g", "kg", "M_sun"])
    r = as_unit(rng, lu(rng, 1e10, 1e20), LEN)
    rec.obs("lib", "to_R_g_units", {"r": j(r.to_value("cm")), "M": j(M.to_value("g"))}, lambda: to_R_g_units(r, M))


def quadrature_obs(rec, rng):
    # power laws, exact
    n = int(rng.choice([2, 3, 10, 60]))
    x0 = lu(rng, 1e-8, 1e8)
    x = np.cumprod(np.concatenate([[x0], 1 + 10 ** rng.uniform(-1, 1, n - 1)]))
    m = some(rng, -1.0, -1, 0, -2.1, rng.uniform(-4, 3))
    k = lu(rng, 1e-20, 1e20) * some(rng, 1, 1, -1)
    if abs(m + 1) > 1e-3 or m == -1:
        y = k * x ** float(m)
        un = rng.random() < 0.5
        rec.obs("lib", "power_law_exact", {"x": jl(x), "m": j(m), "k": j(k)},
                lambda: trapz_loglog(y * u.Unit("erg"), x * u.s) if un else trapz_loglog(y, x), "erg s" if un else None,
                watch={"x": x, "y": y})
    # arbitrary integrands: several rows, any axis, zeros, changes of sign, huge ratios
    rows, n = int(rng.integers(1, 4)), int(rng.integers(2, 9))
    x = np.cumprod(np.concatenate([[lu(rng, 1e-5, 1e5)], 1 + 10 ** rng.uniform(-1, 1, n - 1)]))
    y = 10 ** rng.uniform(-9, 9, (rows, n))
    t = rng.random()
    if t < 0.3:
        y[rng.random((rows, n)) < 0.4] = 0.0
    elif t < 0.5:
        y *= np.where(rng.random((rows, n)) < 0.5, -1, 1)
    elif t < 0.65:
        y[rng.random((rows, n)) < 0.4] = some(rng, 5e-324, 1e-320, 1e-308, 1e-300)
    if t > 0.65 and rows > 1 and rng.random() < 0.5:
        y = np.abs(y)
    last = rng.random() < 0.5
    yy = y if last else y.T.copy()
    a = {"x": jl(x), "y": [jl(r) for r in y], "scale": j(float(np.max(np.abs(y) * x)))}
    kw = {"axis": 1} if last else ({} if rng.random() < 0.5 else {"axis": 0})
    if last and rng.random() < 0.3:
        kw = {"axis": -1}
    un = rng.random() < 0.5
    rec.obs("lib", "trapz_loglog", a,
            lambda: trapz_loglog(yy * u.Unit("erg"), x * u.s, **kw) if un else trapz_loglog(yy, x, **kw),
            "erg s" if un else None, watch={"x": x, "y": yy})
    p = some(rng, 1.0, 1, 1 + 5e-9, 2.1, rng.uniform(0.2, 4), rng.uniform(0.2, 4),
             1 + some(rng, -1, 1) * lu(rng, 2e-5, 0.2))
    lo = lu(rng, 1, 1e3)
    hi = lo * lu(rng, 2, 1e6)
    if abs(p - 1) < 1e-7 or abs(p - 1) > 1.9e-5:
        rec.obs("lib", "power_law_integral", {"k": j(abs(k)), "p": j(p), "lo": j(lo), "hi": j(hi)},
                lambda: power_law_integral(abs(k), p, lo, hi))
    arrs = [rng.uniform(-5, 5, int(rng.integers(1, 5))) for _ in range(int(rng.integers(1, 6)))]
    if rng.random() < 0.4:
        arrs = [x * u.cm for x in arrs]

    def f():
        out = axes_reshaper(*arrs)
        return np.concatenate([np.concatenate([np.array(o.shape, float), np.ravel(getattr(o, "value", o))]) for o in out])
    rec.obs("lib", "axes", {"arrs": [jl(getattr(x, "value", x)) for x in arrs]}, f, watch={str(n): x for n, x in enumerate(arrs)})
    x = np.concatenate([10 ** rng.uniform(-300, 300, 2), [0.0, 1.0]])
    rec.obs("lib", "log", {"x": jl(x)}, lambda: clog(x), watch={"x": x})


def C23(ctx):
    ctx.run_design("GeomModel", {}, {}, ("Distances", "Reduce", "Cosines", "Quadrature"),
                   defects=("ringSin", "shellHeight", "cosPhi", "linearBin"))
    from c_target import kernel_obs, sigma_obs
    sessions = []
    for i in range(ctx.n(1200, 8000)):
        rec = drv.Recorder()
        rng = np.random.default_rng([ctx.seed, 23, i])
        rec.reset()
        geometry_obs(rec, rng)
        conversion_obs(rec, rng)
        quadrature_obs(rec, rng)
        if i % 4 == 0:
            kernel_obs(rec, rng)
            sigma_obs(rec, rng)
        sessions.append(rec.events)
    ctx.validate(sessions)
    ctx.assumptions += ["points closer than 1e-3 of the scene to the reprocessing material are not judged (the distance cancels)",
                        "indices m with 0 < |m+1| < 1e-3 are not generated for the exactness test"]
