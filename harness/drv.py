"""Recording of executions of agnpy as sequences of events."""
import hashlib, os, sys, traceback, warnings, weakref
os.environ.setdefault("MPLBACKEND", "Agg")
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
sys.dont_write_bytecode = True
REPO = os.environ.get("AGNPY_REPO", "/repo")
sys.path.insert(0, REPO)
warnings.simplefilter("ignore")
import logging
logging.disable(logging.WARNING)
import numpy as np
import astropy.units as u
np.seterr(all="ignore")


def j(x):
    """JSON form of a number: 32-bit integers stay integers, the rest are doubles"""
    if x is None:
        return None
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x) if abs(int(x)) < 2 ** 31 else float(x)
    return float(x)


def jl(a):
    return [j(x) for x in np.asarray(a, dtype=object).ravel()] if isinstance(a, (list, tuple)) \
        else [j(x) for x in np.asarray(a).ravel()]


def val(q, unit):
    """flat list of the values of a result in the given unit"""
    if unit is None:
        if isinstance(q, u.Quantity):
            q = q.to_value("")
    else:
        if not isinstance(q, u.Quantity):
            raise TypeError("no unit on the result, expected " + unit)
        q = q.to_value(unit)
    return jl(np.atleast_1d(np.asarray(q)))


class Picked(list):
    """some elements of a long argument: only their values are judged"""

    def __init__(self, full, idx):
        super().__init__(full[i] for i in idx)
        self.n, self.idx = len(full), list(idx)

    @staticmethod
    def some(rng, full, m=2):
        n = len(full)
        return Picked(full, sorted({0, n - 1, *(int(k) for k in rng.integers(0, n, m))}))


STATE = weakref.WeakKeyDictionary()


def state(o):
    """the attributes an object had when first seen, without private ones that were empty (room for memoised values)"""
    d = vars(o)
    if o not in STATE:
        STATE[o] = {k for k, v in d.items()
                    if not (k.startswith("_") and (v is None or (isinstance(v, (dict, list, set)) and not v)))}
    return {k: v for k, v in sorted(d.items()) if k in STATE[o] or not k.startswith("_")}


def digest(x):
    """fingerprint of an argument or object that must not change"""
    h = hashlib.sha1()

    def feed(o, depth=0):
        if isinstance(o, np.ndarray):
            h.update(str((type(o).__name__, o.dtype, o.shape, getattr(o, "unit", ""))).encode())
            h.update(np.ascontiguousarray(np.asarray(o)).tobytes())
        elif isinstance(o, dict):
            for k in o:
                h.update(str(k).encode())
                feed(o[k], depth + 1)
        elif isinstance(o, (list, tuple)):
            h.update(str(len(o)).encode())
            for e in o:
                feed(e, depth + 1)
        elif isinstance(o, (int, float, str, bool, type(None), np.generic)):
            h.update(repr(o).encode())
        elif callable(o) and not hasattr(o, "__dict__"):
            h.update(repr(o).encode())
        elif hasattr(o, "__dict__") and depth < 6 and type(o).__module__.startswith("agnpy"):
            h.update(type(o).__name__.encode())
            feed(state(o), depth + 1)
        else:
            h.update(type(o).__name__.encode())
    feed(x)
    return h.hexdigest()[:16]


def grids():
    """the library's shared default grids (every module that holds one)"""
    import agnpy  # noqa
    seen = {}
    for name, m in list(sys.modules.items()):
        if name.startswith("agnpy.") and m is not None and ".tests" not in name:
            for k, v in list(vars(m).items()):
                if isinstance(v, np.ndarray) and v.size > 1:
                    seen[name + "." + k] = v
    return seen


class Recorder:
    def __init__(self, purity=False):
        self.events = []
        self.objs = {}
        self.purity = purity
        self.gridnames = sorted(grids()) if purity else []
        self.grids0 = self.grids_now() if purity else None

    def grids_now(self):
        g = grids()
        return digest({k: np.array(g[k]) for k in self.gridnames if k in g})

    def reset(self):
        self.events.append({"op": "reset", "id": "-"})
        self.objs = {}

    def new(self, id, cls, par, make, **extra):
        ev = {"op": "new", "id": id, "cls": cls, "par": par, "err": ""}
        ev.update(extra)
        try:
            self.objs[id] = make()
        except Exception as e:
            ev["err"] = type(e).__name__ + ": " + str(e)[:150]
        self.events.append(ev)
        return ev["err"] == ""

    def set(self, id, f, v, do):
        ev = {"op": "set", "id": id, "f": f, "v": v}
        try:
            do()
        except Exception as e:      # a documented assignment must work
            self.events.append({"op": "obs", "id": id, "what": "set " + f, "a": {},
                                "err": type(e).__name__ + ": " + str(e)[:150], "res": []})
            return
        self.events.append(ev)

    def obs(self, id, what, a, fn, unit=None, watch=None, conv=None, refused=None, note=None):
        """perform an observation; `watch` names arguments that must not be modified"""
        ev = {"op": "obs", "id": id, "what": what, "a": a, "err": "", "res": []}
        if note is not None:
            ev["note"] = note
        if refused is not None:
            ev["refused"] = list(refused)
        w = dict(watch or {})
        if self.purity:
            w.update({"object " + k: o for k, o in self.objs.items()})
        before = {k: digest(x) for k, x in w.items()}
        try:
            r = fn()
            if refused is None:
                ev["res"] = conv(r) if conv else val(r, unit)
                for p in a.values():
                    if isinstance(p, Picked):
                        if len(ev["res"]) != p.n:
                            raise ValueError("%d values for %d arguments" % (len(ev["res"]), p.n))
                        ev["res"] = [ev["res"][k] for k in p.idx]
                        break
            else:
                ev["res"] = [str(r)[:80]]
        except Exception as e:
            ev["err"] = type(e).__name__ + ("" if refused is not None else ": " + str(e)[:150])
        if w:
            ev["same"] = [[k, before[k], digest(x)] for k, x in w.items()]
        if self.purity:
            ev.setdefault("same", []).append(
                ["default grids", self.grids0, self.grids_now()])
        self.events.append(ev)
        return ev


class Looks:
    """observations of a behaviour; "again" repeats the last one with the same arguments (the very same
    arrays) or, sometimes, with a grid of the same shape and ends but other points in between"""
    now = None

    def __init__(self, rng, inplace=True, jolt=None):
        """jolt: changes something of the session; then the same is looked at again at once"""
        self.rng, self.state, self.memo, self.inplace, self.jolt = rng, None, [], inplace, jolt

    def __call__(self, kind, do):
        b = self.rng.bit_generator
        Looks.now, self.kind, self.k = self, kind, 0
        try:
            if kind == "obs":
                self.state, self.memo = b.state, []
                do()
                if any(twin(x, 1) is not x for x in self.memo) and self.rng.random() < 0.3:
                    # at once again, on other points between the same ends
                    self.repeat(do, [1, 2 if self.inplace else 1][int(self.rng.integers(2))])
                if self.jolt and self.rng.random() < 0.3:
                    Looks.now = None
                    self.jolt()
                    Looks.now = self
                    self.repeat(do, 0)
            elif kind == "again":
                self.repeat(do, [0, 0, 0, 1, 2 if self.inplace else 1][int(self.rng.integers(5))])
        finally:
            Looks.now = None

    def repeat(self, do, how):
        b = self.rng.bit_generator
        self.kind, self.k, self.twin = "again", 0, how
        later, b.state = b.state, self.state
        do()
        b.state = later


def twin(x, how):
    """a grid of the same shape and ends with other points in between: a new array, or the same one changed in place"""
    if isinstance(x, tuple):                     # (frequencies, the same in Hz)
        if len(x) != 2 or not isinstance(x[0], u.Quantity) or not isinstance(x[1], list):
            return x
        q = twin(x[0], how)
        l = jl(q.to_value("Hz"))
        return x if q is x and how == 1 else (q, Picked(l, x[1].idx) if isinstance(x[1], Picked) else l)
    v = x.value if isinstance(x, u.Quantity) else x
    if not isinstance(v, np.ndarray) or v.dtype.kind != "f" or v.size < 3:
        return x
    f = v.ravel().copy()
    inner = [k for k in range(1, f.size - 1) if f.min() < f[k] < f.max()]
    for k in inner:
        f[k] = 0.7 * f[k] + 0.3 * f[k + 1]
    f = f.reshape(v.shape)
    if how == 2 and v.flags.writeable:
        v[...] = f
        return x
    return f * x.unit if isinstance(x, u.Quantity) else f


def argument(make):
    """marks a maker of arguments: while a look is repeated it returns what it returned the first time"""
    def wrap(*a, **k):
        w, x = Looks.now, make(*a, **k)
        if w is not None and w.kind == "again" and w.k < len(w.memo):
            x = w.memo[w.k]
            if w.twin:
                x = twin(x, w.twin)
                w.memo[w.k] = x
        elif w is not None:
            w.memo.append(x)
        if w is not None:
            w.k += 1
        return x
    return wrap


def chunk(sessions, n):
    """distribute sessions (lists of events) over n traces, balanced by size"""
    n = max(1, min(n, len(sessions)))
    out, w = [[] for _ in range(n)], [0.0] * n
    for s in sorted(sessions, key=lambda s: -weight(s)):
        k = w.index(min(w))
        out[k] += s
        w[k] += weight(s)
    return [c for c in out if c]


def weight(s):
    return sum(e.get("w", 1) for e in s)


_job = None


class Crash(list):
    """a session that could not be recorded to its end: calls of the public interface raised where they must not"""
    why = ""


def _run(i):
    return attempt(_job, i)


def attempt(fn, i):
    try:
        return fn(i)
    except MemoryError:
        raise
    except Exception as e:
        c = Crash()
        c.why = "session %d: %s: %s" % (i, type(e).__name__, traceback.format_exc()[-1500:])
        return c


def pmap(fn, n, procs=7):
    """[fn(0), ..., fn(n-1)] in forked processes (fn may be any closure; results in order)"""
    import multiprocessing
    global _job
    if n < 2 * procs:
        return [attempt(fn, i) for i in range(n)]
    _job = fn
    with multiprocessing.get_context("fork").Pool(procs) as pool:
        return pool.map(_run, range(n), chunksize=max(1, n // (procs * 8)))
