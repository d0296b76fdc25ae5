"""C26: plots draw the values of the objects; comparison helpers compare what they are given."""
import os, shutil, tempfile
from pathlib import Path
import numpy as np
import astropy.units as u
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.figure import Figure
import drv, tlc
from drv import j, jl
from objs import Dist, lu, CLS
from c_dist import points
import agnpy.utils.validation_utils as vu
from agnpy.utils.plot import plot_sed

SHAPES = [c for c in CLS if c != "EmptyDistribution"]
NU = [(u.Hz, 1.0), (u.GHz, 1e9), (u.Unit("1 / s"), 1.0), (u.MHz, 1e6)]
SED = ["erg cm-2 s-1", "erg cm-2 s-1", "W m-2", "TeV cm-2 s-1"]
SUB = ["", "figures", "figures_2"]


def curve(l):
    x, y = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
    return {"x": jl(x), "y": jl(y), "name": str(l.get_label())}


class Session:
    def __init__(self, rng, i):
        self.rng, self.rec = rng, drv.Recorder()
        self.rec.events.append({"op": "reset", "id": "-", "axes": 2})
        self.dir = tempfile.mkdtemp(prefix="agnpy-plot-")
        self.d = {w: Dist(self.rec, rng, w, SHAPES[(i + 2 * k) % len(SHAPES)], "p" if rng.random() < 0.2 else "e") for k, w in enumerate(("dist", "dist2"))}
        self.fig, axes = plt.subplots(2)
        self.axes = list(axes)
        plt.sca(self.axes[0])
        self.cur = 1
        for m in (1, 2):
            os.makedirs(self.place(m, 0))

    def put(self, **ev):
        self.rec.events.append(ev)

    # ---------------------------------------------------------------- drawing
    def draw(self, w, a, grid):
        rng, kw = self.rng, {}
        if w != "sed" and not self.d[w].ok:
            return
        ev = {"op": "draw", "id": w, "what": "sed" if w == "sed" else "dist", "of": w, "ax": a or self.cur, "grid": grid, "err": "", "x": [], "label": ""}
        if rng.random() < 0.5:
            kw["label"] = ev["label"] = "curve %d" % rng.integers(100)
        if rng.random() < 0.5:
            kw["color"] = "crimson"
        if a:
            kw["ax"] = self.axes[a - 1]
        if w == "sed":
            n = int(rng.integers(2, 9))
            nu = np.sort(10 ** rng.uniform(8, 28, n))
            s = np.array([lu(rng, 1e-18, 1e-8) for _ in range(n)])
            if grid in ("default", "array"):
                qn, qs = nu * u.Hz, s * u.Unit(SED[0])
            elif grid == "ints":
                nu = np.round(nu).astype(np.int64) if nu[-1] < 9e18 else np.array([10 ** 9, 10 ** 12])
                s = s[:len(nu)]
                qn, qs = u.Quantity(nu, u.Hz, dtype=np.int64), s * u.Unit(SED[0])
            else:
                un, f = NU[int(rng.integers(len(NU)))]
                qn, qs = (nu / f) * un, (s * u.Unit(SED[0])).to(SED[int(rng.integers(len(SED)))])
            ev["x"], ev["y"] = jl(np.asarray(nu, float)), jl(s)
            args, fn, watched = (qn, qs), plot_sed, (qn, qs)
        else:
            d = self.d[w].o
            g = None
            if grid == "array":
                g = points(rng, d, int(rng.integers(2, 9)))
            elif grid == "ints":
                g = np.unique(np.round(points(rng, d, 5)).astype(np.int64))
                g = g[g > 0]
            elif grid == "units":
                g = np.sort(points(rng, d, 6))
            p = int(rng.integers(0, 4))
            ev["pow"] = p
            if p or rng.random() < 0.5:
                kw["gamma_power"] = p
            if g is not None:
                kw["gamma"] = g
                ev["x"] = jl(np.asarray(g, float))
            else:
                ev["grid"] = "default"
            args, fn, watched = (), d.plot, (g, d)
        plt.sca(self.axes[self.cur - 1])
        before = drv.digest(watched)
        try:
            r = fn(*args, **kw)
            ev["returned"] = next((k + 1 for k, x in enumerate(self.axes) if x is r), 0)
            ax = self.axes[ev["ax"] - 1]
            ev["scales"] = [ax.get_xscale(), ax.get_yscale()]
            ev["fig"] = [[curve(l) for l in x.get_lines()] for x in self.axes]
            last = self.axes[ev["ax"] - 1].get_lines()
            name = str(last[-1].get_label()) if len(last) else ""
            ev["name"] = name if "label" in kw or not name.startswith("_") else ""
            ev["same"] = drv.digest(watched) == before
            self.cur = next(k + 1 for k, x in enumerate(self.axes) if x is plt.gca())
        except Exception as e:
            ev["err"] = type(e).__name__ + ": " + str(e)[:150]
        self.rec.events.append(ev)

    def change(self, w, f, v):
        d = self.d[w]
        if d.ok:
            from objs import FIELD
            fs = list(FIELD[d.cls])
            d.set(fs[(f + v) % len(fs)], v)

    def select(self, a):
        plt.sca(self.axes[a - 1])
        self.cur = a

    # ---------------------------------------------------------------- comparisons
    def compare(self, kind, second):
        rng = self.rng
        n = int(rng.integers(3, 9))
        nu = np.sort(10 ** rng.uniform(8, 28, n))
        ref = np.array([lu(rng, 1e-14, 1e-9) for _ in range(n)])
        comp = ref * rng.uniform(0.5, 1.7, n)
        un = u.Unit(SED[0]) if kind == "sed" else 1
        qn, qr, qc = nu * u.Hz, ref * un, comp * un
        named = kind in ("sed", "tau") and rng.random() < 0.6     # other units than those written on the axes
        freq = lambda q: q.to([a for a, _ in NU][int(rng.integers(len(NU)))]) if named else q
        flux = lambda q: q.to(SED[int(rng.integers(len(SED)))]) if named and kind == "sed" else q
        qn, qr, qc = freq(qn), flux(qr), flux(qc)
        path = os.path.join(self.dir, "comparison_%d.png" % rng.integers(100))
        ev = {"op": "compare", "id": kind, "err": "", "x": jl(nu), "ref": jl(ref), "comp": jl(comp), "refname": "reference A", "compname": "agnpy B",
              "title": "figure %d" % rng.integers(100), "second": [], "yrange": [], "marks": []}
        kw = {}
        if second:
            x2 = np.sort(10 ** rng.uniform(8, 28, n - 1))
            y2 = np.array([lu(rng, 1e-14, 1e-9) for _ in x2])
            kw.update(second_ref_x=freq(x2 * u.Hz), second_ref_y=flux(y2 * un), second_ref_label="third C")
            ev["second"] = [{"x": jl(x2), "y": jl(y2), "name": "third C"}]
        if rng.random() < 0.5:
            kw["y_range"] = [1e-15, 1e-8]
            ev["yrange"] = jl(kw["y_range"])
        if rng.random() < 0.5:
            kw["comparison_range"] = [nu[0], nu[-2]]
            ev["marks"] = jl(np.array(kw["comparison_range"]))
        if kind == "other":
            kw.update(x_label="x", y_label="y")
        seen = []
        save = Figure.savefig

        def saved(fig, fname, *a, **k):
            ax = fig.axes
            seen.append({"up": [curve(l) for l in ax[0].get_lines()],
                         "down": [curve(l) for l in ax[1].get_lines()],
                         "gtitle": ax[0].get_title() or ax[1].get_title() or (fig._suptitle.get_text() if fig._suptitle else ""),
                         "ylim": jl(np.array(ax[0].get_ylim(), float)), "to": str(fname)})
            open(fname, "w").close()            # an empty file stands for the picture
        watched = (qn, qr, qc, kw)
        before, figs = drv.digest(watched), set(plt.get_fignums())
        Figure.savefig = saved
        try:
            vu.make_comparison_plot(qn, qc, qr, ev["compname"], ev["refname"], ev["title"], Path(path) if rng.random() < 0.5 else path, kind, **kw)
            if not seen:
                raise RuntimeError("nothing was saved")
            ev.update(seen[-1])
            ev["saved"], ev["closed"] = len(seen) == 1 and seen[0]["to"] == path, set(plt.get_fignums()) == figs
            ev["same"] = drv.digest(watched) == before
        except Exception as e:
            ev["err"] = type(e).__name__ + ": " + str(e)[:150]
        finally:
            Figure.savefig = save
            for k in set(plt.get_fignums()) - figs:
                plt.close(k)
            plt.figure(self.fig.number)
            plt.sca(self.axes[self.cur - 1])
        self.rec.events.append(ev)

    def deviation(self, rg, tell):
        rng = self.rng
        n = int(rng.integers(4, 9))
        x = np.sort(10 ** rng.uniform(8, 28, n))
        ref = np.array([lu(rng, 1e-14, 1e-9) for _ in range(n)])
        if rng.random() < 0.2:
            ref = -ref
        rtol = lu(rng, 1e-3, 0.5)
        comp = ref * (1 + rtol * rng.uniform(-0.9, 0.9, n))
        lo, hi = 1, n - 2
        k = int(rng.integers(n)) if rng.random() < 0.5 else [0, n - 1, lo, hi][int(rng.integers(4))]
        if tell in ("above", "below"):
            comp[k] = ref[k] * (1 + rtol * (1 if tell == "above" else -1) * rng.uniform(1.02, 1.1))
        elif tell == "edge":
            comp[k] = ref[k] * (1 + rtol)
        elif tell == "zero":
            ref[k] = 0
            comp[k] = 0 if rng.random() < 0.5 else 1e-30
        elif tell == "nan":
            comp[k] = np.nan
        r = {"none": None, "inner": (x[lo], x[hi]), "same": (x[0], x[-1]), "empty": (x[-1] * 2, x[-1] * 3)}[rg]
        ev = {"op": "deviation", "id": "lib", "err": "", "x": jl(x), "ref": jl(ref), "comp": jl(comp), "rtol": j(rtol),
              "range": [] if r is None else jl(np.array(r, float))}
        un, f = NU[int(rng.integers(len(NU)))]
        if rng.random() < 0.5:
            X, C, Rf = x * u.Hz, comp * u.Unit(SED[0]), ref * u.Unit(SED[0])
            if tell != "edge" and rng.random() < 0.4:
                C, Rf = (q.to(SED[int(rng.integers(len(SED)))]) for q in (C, Rf))
            if r is not None:
                r = [(v / f) * un for v in r] if rng.random() < 0.3 and rg != "inner" and rg != "same" else [v * u.Hz for v in r]
        else:
            X, C, Rf = x, comp, ref
            r = list(r) if r is not None else None
        watched = (X, C, Rf, r)
        before = drv.digest(watched)
        try:
            kw = {} if r is None and rng.random() < 0.5 else {"x_range": r}
            res = vu.check_deviation(X, C, Rf, rtol, **kw)
            ev["res"] = bool(res)
            ev["same"] = drv.digest(watched) == before
        except Exception as e:
            ev["err"] = type(e).__name__ + ": " + str(e)[:150]
        self.rec.events.append(ev)

    def columns(self, n, units):
        rng = self.rng
        x, y = 10 ** rng.uniform(8, 28, n), np.array([lu(rng, 1e-14, 1e-9) for _ in range(n)])
        path = os.path.join(self.dir, "sample.txt")
        with open(path, "w") as f:
            f.write("# x, y\n" + "".join("%r,%r\n" % (float(a), float(b)) for a, b in zip(x, y)))
        un, fac = NU[int(rng.integers(len(NU)))]
        yu = SED[int(rng.integers(len(SED)))]
        ev = {"op": "columns", "id": "lib", "err": "", "x": jl(x * fac), "y": jl((y * u.Unit(yu)).to_value(SED[0]) if units else y), "rx": [], "ry": []}
        try:
            a, b = vu.extract_columns_sample_file(path, str(un), yu) if units else vu.extract_columns_sample_file(path, str(un))
            ev["rx"] = jl(np.atleast_1d(a.to_value("Hz")))
            ev["ry"] = jl(np.atleast_1d(b.to_value(SED[0]) if units else np.asarray(b, float)))
        except Exception as e:
            ev["err"] = type(e).__name__ + ": " + str(e)[:150]
        self.rec.events.append(ev)

    # ---------------------------------------------------------------- directories
    def place(self, m, s):
        return os.path.join(self.dir, "work", "out%d" % m, SUB[s]) if s else os.path.join(self.dir, "work", "out%d" % m)

    def there(self):
        out = []
        for m in (1, 2):
            for s in range(len(SUB)):
                if os.path.isdir(self.place(m, s)):
                    out.append([m, s, 0])
                if os.path.exists(os.path.join(self.place(m, s), "file.txt")):
                    out.append([m, s, 1])
        return out

    def touch(self, m, s):
        os.makedirs(self.place(m, s), exist_ok=True)
        open(os.path.join(self.place(m, s), "file.txt"), "w").close()

    def mkdir(self, m, s):
        os.makedirs(self.place(m, s), exist_ok=True)

    def clean(self, m, s, how):
        rng = self.rng
        main = self.place(m, 0)
        ev = {"op": "clean", "id": "lib", "err": "", "dir": m, "sub": s, "before": self.there(), "beyond": []}
        work = os.path.realpath(os.path.join(self.dir, "work"))
        real = shutil.rmtree

        def rmtree(path, *a, **k):              # only inside the scratch directory; other targets are reported
            p = os.path.realpath(path)
            if p.startswith(work + os.sep):
                return real(p, *a, **k)
            ev["beyond"].append(p)
        shutil.rmtree = rmtree
        own = getattr(vu, "rmtree", None)
        if own is not None:
            vu.rmtree = rmtree
        try:
            arg = [Path(main) if how == "path" else main] + ([SUB[s]] if s else [])
            if not s and rng.random() < 0.5:
                arg.append(None)
            r = vu.clean_and_make_dir(*arg)
            ev["exists"] = os.path.isdir(self.place(m, s)) and os.listdir(self.place(m, s)) == []
            ev["right"] = os.path.realpath(r) == os.path.realpath(self.place(m, s))
            ev["after"] = self.there()
        except Exception as e:
            ev["err"] = type(e).__name__ + ": " + str(e)[:150]
        finally:
            shutil.rmtree = real
            if own is not None:
                vu.rmtree = own
        self.rec.events.append(ev)


def replay(b, rng, i):
    s = Session(rng, i)
    try:
        for a in b:
            getattr(s, a[0])(*a[1:])
    finally:
        plt.close("all")
        shutil.rmtree(s.dir, ignore_errors=True)
    return s.rec.events


def C26(ctx):
    ctx.run_design("PlotModel", {"Axes": "2", "Dirs": "2", "Subs": "2", "Draws": str(ctx.n(3, 4)), "Gen": "FALSE", "Depth": "0"}, {},
                   ("Drawn", "Emptied"), defects=("current", "first", "twice", "replace", "live", "whole", "keep"))
    depth = ctx.n(14, 24)
    beh, _ = tlc.generate("PlotModel", {"Axes": "2", "Dirs": "2", "Subs": "2", "Draws": "0", "Gen": "TRUE", "Depth": str(depth), "Defect": '"none"'},
                          {}, ctx.n(120, 1200), depth, ctx.seed, ctx.wd)
    ctx.cov["generated_behaviours"] = len(beh)
    ctx.validate(drv.pmap(lambda i: replay(beh[i], np.random.default_rng([ctx.seed, 26, i]), i), len(beh)), module="PlotTrace")
    ctx.assumptions += ["pictures are observed as the curves matplotlib is given; fonts, colours and layout are not judged"]
