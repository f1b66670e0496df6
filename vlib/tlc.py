"""Running TLC: exhaustive model checking, behaviour generation, trace validation."""
import json, os, re, resource, shutil, subprocess, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")
TLA = "/opt/veriftools/tla"
JARS = [os.path.join(TLA, "tla2tools.jar"), os.path.join(TLA, "CommunityModules-deps.jar")]


class Machinery(Exception):
    """The check itself could not run."""


def compile_java(force=False):
    src = os.path.join(ROOT, "java", "Real64.java")
    out = os.path.join(BUILD, "cls")
    cls = os.path.join(out, "Real64.class")
    if not force and os.path.exists(cls) and os.path.getmtime(cls) >= os.path.getmtime(src):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=BUILD)
    r = subprocess.run(["javac", "-cp", JARS[0], "-d", tmp, src], capture_output=True, text=True)
    if r.returncode:
        raise Machinery("javac failed: " + r.stderr)
    os.makedirs(out, exist_ok=True)
    for f in os.listdir(tmp):
        os.replace(os.path.join(tmp, f), os.path.join(out, f))
    shutil.rmtree(tmp)
    return out


def _unlimited():
    resource.setrlimit(resource.RLIMIT_AS, (resource.getrlimit(resource.RLIMIT_AS)[1],) * 2)


def _run(module, cfg, args, scratch, env=None, timeout=800, heap="3g"):
    cls = compile_java()
    d = tempfile.mkdtemp(prefix="tlc_", dir=scratch)
    cfgf = os.path.join(d, "M.cfg")
    with open(cfgf, "w") as f:
        f.write(cfg)
    cmd = ["java", "-Xmx" + heap, "-XX:+UseParallelGC", "-Xss64m", "-DTLA-Library=" + SPEC, "-cp", ":".join(JARS + [cls]), "tlc2.TLC",
           "-config", cfgf, "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-nowarning"] + args + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ, **(env or {}))
    e.pop("JAVA_TOOL_OPTIONS", None)
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=d, preexec_fn=_unlimited)
    except subprocess.TimeoutExpired:
        raise Machinery(f"TLC timed out on {module}")
    shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    return r.returncode, r.stdout + r.stderr


def _stats(out):
    m = re.findall(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    a, b = m[-1]
    return int(a.replace(",", "")), int(b.replace(",", ""))


def model_check(module, cfg, scratch, workers=4, timeout=800, deadlock=False):
    """Exhaustive search. Any error is one of the specification, not of the code under test."""
    args = ["-workers", str(workers)] + ([] if deadlock else ["-deadlock"])
    rc, out = _run(module, cfg, args, scratch, timeout=timeout)
    gen, dist = _stats(out)
    if rc != 0 or "No error has been found" not in out:
        raise Machinery(f"TLC: the specification {module} does not satisfy its properties:\n" + out[-3000:])
    return dict(module=module, states=dist, transitions=gen, complete=True)


def behaviours(module, cfg, scratch, num=None, depth=30, seed=1, timeout=800):
    """Scenarios printed by the specification: random behaviours (num given) or all of them."""
    if num is None:
        args = ["-workers", "1", "-deadlock"]
    else:
        args = ["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed), "-workers", "1", "-deadlock"]
    rc, out = _run(module, cfg, args, scratch, timeout=timeout)
    hs = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"') and line.endswith('"'):
            try:
                hs.append(json.loads(json.loads(line)))
            except ValueError:
                pass
    if not hs or ("Error:" in out):
        raise Machinery(f"TLC produced no behaviours for {module} (rc {rc}):\n" + out[-3000:])
    gen, dist = _stats(out)
    return hs, dict(states=dist, transitions=gen)


def validate(module, events, scratch, consts="St0 <- MySt0\n  Step <- MyStep\n  Fail <- MyFail", extra="", timeout=800, keep=None):
    """Validate recorded events. Returns (verdict, stats); verdict['bad'] lists violating lines."""
    fd, path = tempfile.mkstemp(suffix=".ndjson", prefix="trace_", dir=scratch)
    with os.fdopen(fd, "w") as f:
        for e in events:
            f.write(json.dumps(e) + "\n")
    ver = path + ".verdict"
    cfg = f"SPECIFICATION TSpec\nCONSTANTS\n  {consts}\nINVARIANT Report\nCHECK_DEADLOCK FALSE\n{extra}"
    rc, out = _run(module, cfg, ["-workers", "1"], scratch, env={"TRACE": path, "VERDICT": ver}, timeout=timeout, heap="6g")
    if os.path.exists(ver):
        v = json.load(open(ver))
        v["bad"] = v["bad"] or []
        gen, dist = _stats(out)
        return v, dict(events=len(events), states=dist, transitions=gen), path
    if "Parsing or semantic analysis failed" in out or "java.lang.OutOfMemoryError" in out or "Unable to access" in out or "Could not find" in out:
        raise Machinery(f"TLC could not check a trace with {module}:\n" + out[-3000:])
    m = re.findall(r"l = (\d+)", out)
    line = int(m[-1]) if m else 1
    msg = [x for x in out.splitlines() if x.startswith("Error") or "rror:" in x][:6]
    return dict(events=len(events), bad=[dict(line=line, clauses=["NotInterpretable"])], error="\n".join(msg), out=out[-2500:]), dict(events=len(events), states=0, transitions=0), path
