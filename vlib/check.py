"""Common frame of a check: scratch space, evidence, verdict."""
import contextlib, json, os, resource, shutil, signal, sys, tempfile, time, traceback
from . import tlc
ROOT = tlc.ROOT


class Hang(BaseException):
    """A call into the code under test did not return in any reasonable time."""


def _alarm(*_):
    raise Hang("no answer")


@contextlib.contextmanager
def deadline(quick=240, thorough=1800):
    """Calls take seconds; one that takes minutes ends the check."""
    if signal.getsignal(signal.SIGALRM) is _alarm:
        yield
        return
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(thorough if os.environ.get("VERIF_TIER") == "thorough" else quick)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"verif_{pid}_")
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, events_validated=0, samples=[], models=[], clauses_evaluated=[])
        self.assumptions = []
        self.violations = []
        self.known = []
        kf = os.path.join(ROOT, "known_findings.jsonl")
        self.findings = [json.loads(x) for x in open(kf)] if os.path.exists(kf) else []
        self.findings = [f for f in self.findings if f.get("property") == pid and f.get("status") == "open"]
        self.log = []

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # --- the three uses of TLC
    def timely(self, items, quick=420):
        """The items, as long as there is time; what was recorded until then is judged."""
        items = list(items)
        for n, x in enumerate(items):
            if not self.thorough and time.time() - self.t0 > quick:
                self.cov["cut_short"] = self.cov.get("cut_short", 0) + len(items) - n
                return
            yield x

    def model(self, module, cfg, **kw):
        r = tlc.model_check(module, cfg, self.scratch, **kw)
        self.cov["states"] += r["states"]
        self.cov["transitions"] += r["transitions"]
        self.cov["models"].append(r)
        return r

    def scenarios(self, module, cfg, **kw):
        kw.setdefault("seed", self.seed)
        hs, st = tlc.behaviours(module, cfg, self.scratch, **kw)
        self.cov["models"].append(dict(module=module, behaviours=len(hs), **st))
        self.cov["transitions"] += st["transitions"]
        return hs

    def trace(self, module, events, ntraces=None, what="", **kw):
        """Validate events; ntraces: how many separate traces they hold."""
        if not events:
            if self.cov.get("cut_short"):
                return dict(bad=[])
            raise tlc.Machinery("no events recorded")
        v, st, path = tlc.validate(module, events, self.scratch, **kw)
        self.cov["states"] += st["states"]
        self.cov["transitions"] += st["transitions"]
        self.cov["events_validated"] += len(events)
        self.cov["traces_validated_against_impl"] += ntraces if ntraces is not None else max(1, sum(1 for e in events if e.get("a") == "reset"))
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(dict(module=module, events=[_short(e) for e in events[:4]]))
        for b in v["bad"]:
            ev = events[b["line"] - 1] if 0 < b["line"] <= len(events) else {}
            start = b["line"] - 1
            while start > 0 and events[start - 1].get("a") != "reset":
                start -= 1
            self.violation(sorted(b["clauses"]), ev, dict(module=module, what=what, line=b["line"], error=v.get("error"),
                                                          trace=events[max(start, b["line"] - 40):b["line"]]))
        return v

    def violation(self, clauses, event, detail):
        for f in self.findings:
            if _matches(f, clauses, event):
                self.known.append(f["what"])
                return
        self.violations.append(dict(clauses=clauses, event=event, detail=detail))

    def finish(self):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        ev = dict(property=self.pid, tier="thorough" if self.thorough else "quick", seed=self.seed, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(os.path.join(ROOT, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for w in sorted(set(self.known)):
            print(f"KNOWN-FINDING: property={self.pid} {w}")
        rc = 0
        if self.violations:
            rep = os.path.join(ROOT, "evidence", f"{self.pid}.replay.json")
            with open(rep, "w") as f:
                json.dump(dict(property=self.pid, seed=self.seed, tier=self.tier, how="VERIF_SEED=%d VERIF_TIER=%s ./run %s" % (self.seed, self.tier, self.pid),
                               violations=self.violations[:40]), f, indent=1, default=str)
            for v in self.violations[:5]:
                print("  clauses %s: %s" % (",".join(v["clauses"]), json.dumps(_short(v["event"]), default=str)[:500]))
            print(f"VIOLATION property={self.pid} replay={rep}")
            rc = 1
        else:
            print(f"OK property={self.pid} states={self.cov['states']} traces={self.cov['traces_validated_against_impl']} events={self.cov['events_validated']} wall={time.time()-self.t0:.1f}s")
        shutil.rmtree(self.scratch, ignore_errors=True)
        return rc


def _matches(f, clauses, event):
    m = f.get("match", {})
    if not set(clauses) <= set(m.get("clauses", [])):
        return False
    return all(event.get(k) == v for k, v in m.get("event", {}).items())


def _short(e):
    def s(x, d=0):
        if isinstance(x, dict):
            return {k: s(v, d + 1) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [s(v, d + 1) for v in x[:4]] + (["... %d" % len(x)] if len(x) > 4 else [])
        return x
    return s(e)


def main(pid, fn, level="model_checking"):
    c = Check(pid, level)
    # arrays beyond all measure fail instead of exhausting the machine (TLC runs without this limit)
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    try:
        fn(c)
        return c.finish()
    except tlc.Machinery as e:
        print("MACHINERY", e, file=sys.stderr)
        shutil.rmtree(c.scratch, ignore_errors=True)
        return 2
    except (Exception, Hang) as e:
        tb = traceback.extract_tb(e.__traceback__)
        repo = os.path.realpath(os.environ.get("VERIF_REPO", "/repo")) + os.sep + "drdmannturb"
        inside = [f for f in tb if os.path.realpath(f.filename).startswith(repo)]
        if inside or c.violations:
            # an admissible call of the driver failed inside the code under test
            if inside:
                c.violation(["Hang" if isinstance(e, Hang) else "Crash"], dict(a="crash", error="%s: %s" % (type(e).__name__, str(e)[:300]), at="%s:%s" % (os.path.basename(inside[-1].filename), inside[-1].name)),
                            dict(traceback=traceback.format_exc()))
            return c.finish()
        traceback.print_exc()
        shutil.rmtree(c.scratch, ignore_errors=True)
        return 2
