"""Entry point of every check:  run.py <property> [quick|thorough]"""
import importlib, json, os, shutil, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import tlc

MODULES = {"C01": "c_dist", "C02": "c_dist", "C03": "c_dist", "C04": "c_region", "C05": "c_region",
           "C06": "c_region", "C07": "c_target", "C08": "c_region", "C09": "c_pure", "C10": "c_target",
           "C11": "c_target", "C12": "c_ebl", "C13": "c_region", "C23": "c_lib",
           "C14": "c_evol", "C15": "c_evol", "C16": "c_evol", "C17": "c_evol", "C18": "c_evol",
           "C20": "c_fit", "C21": "c_fit", "C22": "c_load", "C19": "c_refuse", "C24": "c_rates", "C25": "c_shown", "C26": "c_plot"}


class Ctx:
    def __init__(self, prop, tier, seed, wd):
        self.prop, self.tier, self.seed, self.wd = prop, tier, seed, wd
        self.quick = tier == "quick"
        self.design, self.cov = [], {}
        self.events = self.observations = self.tstates = 0
        self.traces = 0
        self.failures = []      # (description, replay events)
        self.samples, self.assumptions = [], []
        self.known = {}         # name of a listed finding -> its line

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def run_design(self, *a, **k):
        self.design.append(tlc.design(*a, wd=self.wd, **k))

    def validate(self, sessions, module="SessionTrace", consts=None, par=7, nchunks=None, heap="3g", head=()):
        """sessions: list of lists of events"""
        import drv
        for c in sessions:
            if isinstance(c, drv.Crash):
                self.failures.append((["not recorded", c.why], [{"op": "crash", "why": c.why}], 1))
        sessions = [c for c in sessions if not isinstance(c, drv.Crash)]
        if not sessions:
            return []
        chunks = [list(head) + c for c in drv.chunk(sessions, nchunks or par)]
        ev, ob, bad, st, kn = tlc.validate(module, chunks, self.wd, consts, heap, par)
        self.events += ev
        self.observations += ob
        self.tstates += st
        self.traces += len(sessions)
        for b in bad:
            self.failures.append((b, chunks[b[0]], b[1]))
        listed = known_findings(self.prop)
        for k in kn:            # (chunk, event, name of the finding)
            line = [x for x in listed if "[%s]" % k[2] in x]
            if line:
                self.known[k[2]] = line[0]
            else:
                self.failures.append((k, chunks[k[0]], k[1]))
        for s in sessions[:1]:
            self.samples.append(json.loads(json.dumps(s[:6])[:100000]) if len(json.dumps(s[:6])) < 100000 else str(s[:3])[:2000])
        return bad


def known_findings(prop):
    out = []
    p = os.path.join(tlc.VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("KNOWN-FINDING: property=%s " % prop):
                out.append(line.strip())
    return out


def replay_session(events, k):
    """the session (from the preceding reset) up to event k (1-based)"""
    i = max([x for x in range(k) if events[x]["op"] == "reset"], default=0)
    return events[i:k]


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    tlc.build()
    wd = tlc.workdir(prop)
    ctx = Ctx(prop, tier, seed, wd)
    rc = 0
    try:
        mod = importlib.import_module(MODULES[prop])
        getattr(mod, prop)(ctx)
        rdir = os.path.join(tlc.WORK, "replay")
        os.makedirs(rdir, exist_ok=True)
        for line in sorted(set(ctx.known.values())):
            print(line)
        shown = 0
        for n, (b, events, k) in enumerate(ctx.failures):
            path = os.path.join(rdir, "%s-%d-%d.json" % (prop, seed, n))
            if n < 20:
                with open(path, "w") as f:
                    json.dump({"property": prop, "seed": seed, "tier": tier, "failure": b,
                               "session": replay_session(events, k)}, f, indent=1)
                print("VIOLATION property=%s replay=%s" % (prop, path))
                print("   ", str(b)[:900])
            rc = 1
        if len(ctx.failures) > 20:
            print("    ... %d failures in total" % len(ctx.failures))
        cov = {"states": sum(d["states"] for d in ctx.design) + ctx.tstates,
               "transitions": sum(d["transitions"] for d in ctx.design) + ctx.events,
               "traces_validated_against_impl": ctx.traces,
               "design_models": ctx.design, "events": ctx.events, "observations": ctx.observations,
               "samples": ctx.samples[:3]}
        cov.update(ctx.cov)
        evd = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
               "assumptions": ctx.assumptions, "wall_s": round(time.time() - t0, 2),
               "violations": len(ctx.failures)}
        os.makedirs(os.path.join(tlc.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(tlc.VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(evd, f, indent=1)
        print("%s %s seed=%d: %d sessions, %d observations judged, %d failures, %.1f s" % (
            prop, tier, seed, ctx.traces, ctx.observations, len(ctx.failures), time.time() - t0))
    except Exception as e:
        traceback.print_exc()
        rc = 2
        own = [f.name for f in traceback.extract_tb(e.__traceback__) if f.filename == tlc.__file__]
        if not isinstance(e, (tlc.Broken, MemoryError)) and (not own or own[-1] == "dump"):
            # the public interface of the library could not be driven
            rdir = os.path.join(tlc.WORK, "replay")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-%d-crash.json" % (prop, seed))
            with open(path, "w") as f:
                json.dump({"property": prop, "seed": seed, "tier": tier, "failure": traceback.format_exc()}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            rc = 1
    finally:
        if not os.environ.get("KEEP"):
            shutil.rmtree(wd, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()
