"""Running TLC: generation of behaviours, design checks, trace validation."""
import json, os, re, shutil, subprocess, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
WORK = os.path.join(VERIF, "work")
TLA = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"


class Broken(Exception):
    """the machinery itself failed (not a verdict on the code)"""


def build():
    """compile the real-arithmetic overrides when needed"""
    srcs = [os.path.join(VERIF, "java", f) for f in ("RealValue.java", "RealOverrides.java")]
    out = os.path.join(BUILD, "RealOverrides.class")
    if os.path.exists(out) and all(os.path.getmtime(out) >= os.path.getmtime(s) for s in srcs):
        return
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=BUILD)
    subprocess.check_call(["javac", "-nowarn", "-cp", TLA, "-d", tmp] + srcs,
                          stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    for f in os.listdir(tmp):
        os.replace(os.path.join(tmp, f), os.path.join(BUILD, f))
    os.rmdir(tmp)


def workdir(name):
    os.makedirs(WORK, exist_ok=True)
    return tempfile.mkdtemp(prefix=name + ".", dir=WORK)


def tlc(module, cfg, wd, args=(), heap="2g", timeout=850, workers=1):
    """run TLC on spec/<module>.tla with the given configuration text"""
    d = tempfile.mkdtemp(prefix="tlc.", dir=wd)
    cf = os.path.join(d, module + ".cfg")
    with open(cf, "w") as f:
        f.write(cfg)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
           "-Dtlc2.overrides.TLCOverrides=RealOverrides",
           "-DTLA-Library=" + SPEC, "-cp", ":".join([BUILD, TLA, CM]), "tlc2.TLC",
           "-workers", str(workers), "-metadir", os.path.join(d, "meta"),
           "-noGenerateSpecTE", "-deadlock", "-config", cf, *args, os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, cwd=d)
    except subprocess.TimeoutExpired:
        raise Broken("TLC timed out on " + module)
    finally:
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    return p.returncode, p.stdout


def cfg(constants=None, subst=None, invariants=(), spec="Spec", properties=(), constraint=None, view=None):
    s = ["SPECIFICATION " + spec]
    for k, v in (constants or {}).items():
        s.append("CONSTANT %s = %s" % (k, v if not isinstance(v, bool) else str(v).upper()))
    for k, v in (subst or {}).items():
        s.append("CONSTANT %s <- %s" % (k, v))
    for i in invariants:
        s.append("INVARIANT " + i)
    for i in properties:
        s.append("PROPERTY " + i)
    if constraint:
        s.append("CONSTRAINT " + constraint)
    if view:
        s.append("VIEW " + view)
    return "\n".join(s) + "\n"


def tuples(out, tag):
    """the tuples <<"tag", ...>> printed by TLC, as Python lists"""
    res, pos = [], 0
    mark = re.compile(r'<<\s*"%s"' % re.escape(tag))
    while True:
        m = mark.search(out, pos)
        if not m:
            return res
        j = m.start()
        v, pos = _value(out, j)
        res.append(v[1:])


def _ws(s, i):
    while s[i].isspace():
        i += 1
    return i


def _value(s, i):
    i = _ws(s, i)
    if s.startswith("<<", i):
        i = _ws(s, i + 2)
        r = []
        if s.startswith(">>", i):
            return r, i + 2
        while True:
            v, i = _value(s, i)
            r.append(v)
            i = _ws(s, i)
            if s.startswith(">>", i):
                return r, i + 2
            assert s[i] == ",", s[i:i + 40]
            i += 1
    if s[i] == "{":
        i = _ws(s, i + 1)
        r = []
        if s[i] == "}":
            return r, i + 1
        while True:
            v, i = _value(s, i)
            r.append(v)
            i = _ws(s, i)
            if s[i] == "}":
                return r, i + 1
            i += 1
    if s[i] == "[":
        i = _ws(s, i + 1)
        r = {}
        if s[i] == "]":
            return r, i + 1
        while True:
            m = re.compile(r"\s*(\w+)\s*\|->").match(s, i)
            v, i = _value(s, m.end())
            r[m.group(1)] = v
            i = _ws(s, i)
            if s[i] == "]":
                return r, i + 1
            i += 1
    if s[i] == '"':
        j = i + 1
        b = []
        while s[j] != '"':
            if s[j] == "\\":
                j += 1
            b.append(s[j])
            j += 1
        return "".join(b), j + 1
    m = re.compile(r"-?\d+|TRUE|FALSE|[\w.+-]+").match(s, i)
    t = m.group(0)
    if t == "TRUE":
        return True, m.end()
    if t == "FALSE":
        return False, m.end()
    try:
        return int(t), m.end()
    except ValueError:
        return t, m.end()


def states(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        return int(m[-1][0]), int(m[-1][1])
    m = re.findall(r"The number of states generated: (\d+)", out)
    return (int(m[-1]), int(m[-1])) if m else (0, 0)


def generate(module, consts, subst, n, depth, seed, wd, tag="BEH", invs=("Emit",), want=None, steps=None):
    """behaviours of a model, by TLC simulation"""
    rc, out = tlc(module, cfg(consts, subst, invs), wd,
                  ["-simulate", "num=%d" % n, "-depth", str(steps or depth + 2), "-seed", str(seed)])
    # TLC prints every successor of the last-but-one state: keep one per behaviour
    beh, seen = [], {}
    for t in tuples(out, tag):
        t = t[0] if len(t) == 1 else t
        seen.setdefault(json.dumps(t[:-1]), []).append(t)
    for k, ts in seen.items():
        ts.sort(key=json.dumps)
        beh.append(ts[(7 * seed + len(beh)) % len(ts)])
    if not beh or "Error:" in out:
        raise Broken("no behaviours from %s\n%s" % (module, out[-3000:]))
    return beh, states(out)


def design(module, consts, subst, invs, wd, defects=(), properties=(), constraint=None, workers=2, view=None):
    """exhaustive check of a design model; every defect must violate an invariant"""
    jobs = ["none"] + list(defects)

    def one(dfc):
        c = dict(consts)
        c["Defect"] = '"%s"' % dfc
        return tlc(module, cfg(c, subst, invs, properties=properties, constraint=constraint, view=view), wd,
                   workers=workers)
    with ThreadPoolExecutor(4) as ex:
        outs = list(ex.map(one, jobs))
    rc, out = outs[0]
    if rc != 0 or "No error has been found" not in out:
        raise Broken("design model %s fails\n%s" % (module, out[-3000:]))
    gen, dist = states(out)
    rejected = []
    for dfc, (rc, o) in zip(jobs[1:], outs[1:]):
        if not re.search(r"is violated|was violated", o):
            raise Broken("design model %s accepts defect %s\n%s" % (module, dfc, o[-2000:]))
        rejected.append(dfc)
    return {"module": module, "states": dist, "transitions": gen, "defects_rejected": rejected}


def dump(path, events):
    with open(path, "w") as f:
        json.dump(events, f)


def validate(module, chunks, wd, consts=None, heap="3g", par=6, timeout=850):
    """trace validation of several recorded traces in parallel.
    returns (#events, #observations, failures[(chunk, event index, ...)], #states, deviations recorded as defects)"""
    def one(k):
        tf = os.path.join(wd, "trace%d.json" % k)
        dump(tf, chunks[k])
        c = dict(consts or {})
        c["TraceFile"] = '"%s"' % tf
        t = time.time()
        rc, out = tlc(module, cfg(c, invariants=("Report",)), wd, heap=heap, timeout=timeout)
        v = tuples(out, "VERDICT")
        if not v or v[-1][0] != len(chunks[k]):
            m = re.findall(r"^/\\ i = (\d+)", out, re.M)
            if m and "Error:" in out and not re.search("OutOfMemory|StackOverflow|heap space", out):
                # what was recorded has not even the shape of something the specification can judge
                why = re.findall(r"Error: (?!The behavior)(.*(?:\n(?!Error|State).*){0,3})", out)
                n = int(m[-1])
                return ((n, n, 1), tuples(out, "BAD") + [[n, chunks[k][n - 1]["id"], chunks[k][n - 1].get("what", ""), "unjudgeable",
                        0, " ".join(why)[:600], ""]], states(out), time.time() - t, tuples(out, "KNOWN"))
            raise Broken("trace validation of %s did not finish (%s)\n%s" % (module, tf, out[-3500:]))
        return v[-1], tuples(out, "BAD"), states(out), time.time() - t, tuples(out, "KNOWN")
    with ThreadPoolExecutor(par) as ex:
        res = list(ex.map(one, range(len(chunks))))
    ev = sum(r[0][0] for r in res)
    ob = sum(r[0][1] for r in res)
    bad = [(k, *b) for k, r in enumerate(res) for b in r[1]]
    nb = sum(r[0][2] for r in res)
    if bool(nb) != bool(bad):
        raise Broken("inconsistent verdict of %s" % module)
    known = [(k, *b) for k, r in enumerate(res) for b in r[4]]
    return ev, ob, bad, sum(r[2][1] for r in res), known
