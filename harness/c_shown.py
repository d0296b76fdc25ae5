"""C25: the printed description of an object states its current parameters."""
import re
import numpy as np
import astropy.units as u
import drv
from drv import j
from objs import SIZES
from c_dist import ALL, design, behaviours
from c_region import region_world, replay
from c_target import Target, KINDS, small_region, ec_actions

BASE = {"length": "cm", "volume": "cm3", "time": "d", "angle": "deg", "mass": "g", "power": "erg s-1", "temperature": "K",
        "mass flow": "g s-1", "number density": "cm-3", "magnetic flux density": "G"}
NUM = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)"


def quantity(text):
    """(value in the base unit, half a unit in the last place) of a printed number with its unit"""
    m = re.match(r"\s*(%s)\s*(.*?)\s*$" % NUM, text)
    num, unit = m.group(1), m.group(2)
    x = float(num)
    mant, _, ex = num.lower().partition("e")
    half = 0.505 * 10.0 ** (int(ex or 0) - (len(mant.split(".")[1]) if "." in mant else 0)) if np.isfinite(x) else 0.0
    f = 1.0
    if unit:
        q = u.Unit(unit)
        for p in BASE.values():
            if q.is_equivalent(p):
                f = float((1 * q).to_value(p))
    return x * f, half * f


def parse(text):
    """what a description says: names (with the section they are in), values, precision"""
    names, vals, half, shapes = [], [], [], []
    sec, line = "", ""
    title = None
    first = True
    for l in text.splitlines():
        if l.startswith("*"):
            m = re.match(r"\*\s*(electrons|protons)\b", l)
            title = m.group(1) if m else None
            sec = "" if first else {"electrons": "e", "protons": "p"}.get(title, "?")
            first = False
            continue
        m = re.match(r"\s*-\s*(.*)$", l)
        if not m:
            continue
        body = m.group(1)
        if ":" not in body:
            if title:
                shapes.append([sec, title, body.strip()])
            continue
        head, _, rest = body.partition(":")
        name = {"dot(m)": "m_dot"}.get(head.split()[0], head.split()[0])
        if name == "line":
            line, _, rest = rest.partition(",")
            line, rest, name = line.strip(), rest.split("=")[1], "lambda"
        x, h = quantity(rest)
        names.append([sec, name])
        vals.append(x)
        half.append(j(h))
    return names, vals, half, shapes, line


def show(rec, o, id):
    a = {"names": [], "half": [], "shapes": [], "line": ""}

    def do():
        t = str(o)
        a["names"], vals, a["half"], a["shapes"], a["line"] = parse(t)
        a["text"] = t[:1500]
        return np.array(vals, float)
    rec.obs(id, "show", a, do, watch={"object": o})


def C25(ctx):
    design(ctx)
    beh = behaviours(ctx, "Blob", "ShowObs", ctx.n(250, 2000), 18, 1, 3, '{"b1", "b2"}')
    names = dict.fromkeys(["d1", "d2", "d3", "e2", "b2"], True)

    def look(w, rec, rng, name, x, what, k):
        if type(x.o).__name__ == "EmptyDistribution":        # has no description
            return
        show(rec, x.o, x.id)
    sessions = replay(ctx, beh, 25, lambda rec, rng, i: region_world(rec, rng, i, [c for c in ALL if c != "EmptyDistribution"], names), look)
    beh = behaviours(ctx, "Ec", "TgtShow", ctx.n(200, 1500), 12, 3, 3, '{"b1"}')

    def one(i):
        rec = drv.Recorder()
        rng = np.random.default_rng([ctx.seed, 2525, i])
        rec.reset()
        d, blob = small_region(rec, rng, i)
        w = {"looks": drv.Looks(rng), "b1": blob, "d1": d, "t": Target(rec, rng, "t", KINDS[2 + i % 3])}
        for a in beh[i]:
            ec_actions(w, a, lambda n, what, k: show(rec, w["t"].o, "t") if w["t"].ok else None)
        return rec.events
    ctx.validate(sessions + drv.pmap(one, len(beh)))
    ctx.assumptions += ["values compared within half a unit of the last printed place",
                        "blackbody and point source targets and empty distributions have no description of their own"]
