"""Common machinery: scratch folders, number encodings, running TLC, verdicts and evidence."""

import contextlib
import io
import json
import math
import os
import pathlib
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = pathlib.Path(__file__).resolve().parent.parent
TLA = VERIF / "tla"
REPO = pathlib.Path("/repo")
EVIDENCE = VERIF / "evidence"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
JOBS = max(2, min(8, os.cpu_count() or 2))

START = time.time()
_scratch = None


def scratch() -> pathlib.Path:
    """Folder of this run, removed by finish()."""
    global _scratch
    if _scratch is None:
        _scratch = pathlib.Path(tempfile.mkdtemp(prefix="vf_"))
    return _scratch


def cleanup():
    global _scratch
    if _scratch is not None:
        shutil.rmtree(_scratch, ignore_errors=True)
        _scratch = None


# ------------------------------------------------------------------ the code under test
def load_repo():
    """Import the code from /repo's working tree."""
    sys.dont_write_bytecode = True
    os.environ["MPLBACKEND"] = "Agg"
    os.environ.setdefault("PYVISTA_OFF_SCREEN", "true")
    if str(REPO) not in sys.path:
        sys.path.insert(0, str(REPO))
    import pyGCodeDecode

    where = pathlib.Path(pyGCodeDecode.__file__).resolve()
    assert str(where).startswith(str(REPO)), where
    return pyGCodeDecode


class Timeout(Exception):
    """The code under test did not come to an end."""


@contextlib.contextmanager
def limit(seconds):
    def handler(signum, frame):
        raise Timeout(f"no result within {seconds} s")

    old = signal.signal(signal.SIGALRM, handler)
    signal.alarm(int(seconds))
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def call(fn, *args, seconds=30, **kwargs):
    """Call fn, return (result, None or name of the exception, captured stdout)."""
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), limit(seconds):
            return fn(*args, **kwargs), None, out.getvalue()
    except Exception as e:  # noqa: B902
        return None, type(e).__name__ + ": " + str(e)[:200], out.getvalue()
    except (SystemExit, KeyboardInterrupt, RecursionError) as e:
        return None, type(e).__name__ + ": " + str(e)[:200], out.getvalue()


# ------------------------------------------------------------------ encodings
class Weird(Exception):
    """A recorded value is outside of everything a correct implementation can produce."""


def flt(x):
    """A decimal float <<mantissa, exponent>> of module Flt."""
    try:
        x = float(x)
    except (TypeError, ValueError):
        raise Weird(f"not a number: {x!r}")
    if not math.isfinite(x):
        raise Weird(f"not finite: {x!r}")
    if abs(x) < 1e-30:
        return [0, 0]
    if abs(x) > 1e30:
        raise Weird(f"huge: {x!r}")
    m, e = f"{x:.8e}".split("e")
    return [int(m.replace(".", "")), int(e) - 8]


def flts(v):
    return [flt(x) for x in v]


def nm(x):
    """Millimetres to whole nanometres."""
    try:
        x = float(x)
    except (TypeError, ValueError):
        raise Weird(f"not a number: {x!r}")
    if not math.isfinite(x):
        raise Weird(f"not finite: {x!r}")
    if abs(x) > 1000:
        raise Weird(f"outside of the machine: {x!r}")
    return round(x * 1e6)


def nms(v):
    return [nm(x) for x in v]


def secs(t):
    """Seconds to <<seconds, nanoseconds>>."""
    t = float(t)
    if not math.isfinite(t) or abs(t) > 1e8:
        raise Weird(f"odd time: {t!r}")
    n = round(t * 1e9)
    return [n // 10**9, n % 10**9]


def codes(s):
    return [ord(c) for c in s]


# ------------------------------------------------------------------ TLC
def sany_all():
    """Parse every module (setup)."""
    bad = 0
    for f in sorted(TLA.glob("*.tla")):
        r = subprocess.run(
            ["java", "-cp", JARS, "tla2sany.SANY", f.name], cwd=TLA, capture_output=True, text=True
        )
        if r.returncode != 0 or "error" in r.stdout.lower().replace("errors: 0", ""):
            print(r.stdout[-2000:])
            bad = 1
    return bad


class TlcError(Exception):
    """TLC failed for a reason that is not a verdict."""


def tlc(module, cfg, env=None, workers=1, heap="2g", extra=(), timeout=800, tag=""):
    """Run TLC, return its output."""
    d = pathlib.Path(tempfile.mkdtemp(prefix=f"tlc_{module}_{tag}_", dir=scratch()))
    (d / "run.cfg").write_text(cfg)
    e = dict(os.environ)
    e.update(env or {})
    cmd = [
        "java",
        f"-Xmx{heap}",
        "-Xss64m",
        "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
        "-XX:TieredStopAtLevel=4",
        "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet" if workers > 1 else "-Dvf=1",
        "-cp",
        JARS,
        "tlc2.TLC",
        "-workers",
        str(workers),
        "-metadir",
        str(d / "meta"),
        "-config",
        str(d / "run.cfg"),
        "-noGenerateSpecTE",
        "-lncheck",
        "final",
        *extra,
        str(TLA / f"{module}.tla"),
    ]
    p = subprocess.run(cmd, cwd=TLA, capture_output=True, text=True, env=e, timeout=timeout)
    shutil.rmtree(d, ignore_errors=True)
    return p.returncode, p.stdout + p.stderr


_STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def stats(out):
    m = _STATS.findall(out)
    return (int(m[-1][1]), int(m[-1][0])) if m else (0, 0)


def parse_result(out):
    """The VF-RESULT tuple printed by the trace specifications."""
    i = out.find('"VF-RESULT"')
    if i < 0:
        return None
    j = out.find("Model checking completed", i)
    text = out[i : j if j > 0 else len(out)]
    # <<"VF-RESULT", "{\"...\"}">> , possibly wrapped
    k = text.find('"', text.find(",", 5))
    buf = []
    esc = False
    for c in text[k + 1 :]:
        if esc:
            buf.append(c)
            esc = False
        elif c == "\\":
            esc = True
        elif c == '"':
            break
        elif c == "\n":
            continue
        else:
            buf.append(c)
    return json.loads("".join(buf))


def set_lit(names):
    return "{" + ", ".join(f'"{n}"' for n in names) + "}"


def validate(module, traces, sel, heap="2g", timeout=850, consts=""):
    """Check recorded traces against a trace specification.

    traces: list of (name, [events]).  The traces are spread over several TLC processes.
    Returns (list of violations (clause, trace name, where), statistics).
    """
    n = max(1, min(JOBS, len(traces)))
    sizes = [sum(len(json.dumps(e)) for e in t[1]) for t in traces]
    order = sorted(range(len(traces)), key=lambda i: -sizes[i])
    chunks = [[] for _ in range(n)]
    load = [0] * n
    for i in order:
        k = load.index(min(load))
        chunks[k].append(i)
        load[k] += sizes[i] + 2000
    cfg = f"SPECIFICATION Spec\nCONSTANT Sel = {set_lit(sel)}\n{consts}\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"

    def run(part):
        f = scratch() / f"{module}_{time.monotonic_ns()}_{part[0]}.ndjson"
        events = 0
        with open(f, "w") as h:
            for i in part:
                for e in traces[i][1]:
                    h.write(json.dumps(e) + "\n")
                    events += 1
        rc, out = tlc(module, cfg, env={"VF_TRACE": str(f)}, heap=heap, timeout=timeout, tag=str(part[0]))
        res = parse_result(out)
        os.unlink(f)
        if rc == 0 and res is not None and res["consumed"] == events:
            return [(res, stats(out))]
        if "Parsing or semantic analysis failed" in out or "OutOfMemory" in out or "VF-HARNESS" in out:
            raise TlcError(f"TLC on {module}: rc={rc}\n" + out[-9500:])
        # some trace cannot be evaluated or read by the specification: find it
        if len(part) == 1:
            why = re.findall(r"Error: (.*)", out)
            print(f"  trace {traces[part[0]][0]} cannot be read by {module}: {' '.join(why)[:300]}")
            return [({"bad": [[f"{sel[0]}.trace outside of the specification", traces[part[0]][0], 0]], "consumed": events}, (0, 0))]
        h = len(part) // 2
        return run(part[:h]) + run(part[h:])

    def one(k):
        return run(chunks[k]) if chunks[k] else []

    with ThreadPoolExecutor(n) as ex:
        results = [r for rs in ex.map(one, range(n)) for r in rs]
    bad, num, states, gen = [], {}, 0, 0
    for res, (d, g) in results:
        bad += [tuple(b) for b in res["bad"]]
        for k, v in res.get("num", {}).items():
            num[k] = num.get(k, 0) + v
        states += d
        gen += g
    return bad, {"num": num, "states": states, "transitions": gen, "traces": len(traces)}


def model_check(module, cfg, workers=JOBS, heap="6g", timeout=800, env=None, extra=()):
    """Exhaustively check a closed specification.  Returns (ok, (distinct, generated), output)."""
    rc, out = tlc(module, cfg, workers=workers, heap=heap, timeout=timeout, env=env, extra=extra)
    ok = rc == 0 and "No error has been found" in out
    if not ok and "is violated" not in out and "Error: " in out and rc not in (10, 11, 12, 13):
        raise TlcError(f"TLC on {module}: rc={rc}\n" + out[-9500:])
    return ok, stats(out), out


# ------------------------------------------------------------------ verdicts
class Check:
    """Collects what a check did and ends with the verdict."""

    def __init__(self, prop):
        self.prop = prop
        self.violations = []  # (clause, detail, replay data)
        self.known = []
        self.cover = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "models": [], "statistics": {}}
        self.notes = []
        self.samples = []

    def model(self, name, ok, st, what, out=""):
        self.cover["models"].append({"name": name, "distinct_states": st[0], "generated_states": st[1], "checked": what})
        self.cover["states"] += st[0]
        self.cover["transitions"] += st[1]
        if not ok:
            raise TlcError(f"the specification {name} violates its own invariants\n" + out[-3000:])

    def traces(self, st, samples=()):
        self.cover["traces_validated_against_impl"] += st["traces"]
        self.cover["states"] += st["states"]
        self.cover["transitions"] += st["transitions"]
        for k, v in st["num"].items():
            self.cover["statistics"][k] = self.cover["statistics"].get(k, 0) + v
        self.samples += list(samples)

    def violation(self, clause, detail, data):
        self.violations.append((clause, detail, data))

    def finish(self):
        EVIDENCE.mkdir(exist_ok=True)
        for f in EVIDENCE.glob(f"{self.prop}.replay*"):
            f.unlink()
        code = 0
        known = load_known(self.prop)
        fresh = []
        hit = {}
        for v in self.violations:
            k = next((k for k in known if k["match"](v)), None)
            if k is None:
                fresh.append(v)
            else:
                hit[k["text"]] = hit.get(k["text"], 0) + 1
        for t in hit:
            print(f"KNOWN-FINDING: property={self.prop} {t}")
        if fresh:
            code = 1
            replay = EVIDENCE / f"{self.prop}.replay.json"
            replay.write_text(
                json.dumps(
                    [{"clause": c, "detail": d, "input": data} for c, d, data in fresh[:20]], indent=1, default=str
                )
            )
            seen = set()
            for c, d, _ in fresh:
                if c not in seen and len(seen) < 12:
                    seen.add(c)
                    print(f"  {c}: {d}")
            print(f"{len(fresh)} violation(s)")
            print(f"VIOLATION property={self.prop} replay={replay}")
        from . import meta

        ev = meta.evidence(self, len(fresh), time.time() - START, hit)
        (EVIDENCE / f"{self.prop}.json").write_text(json.dumps(ev, indent=1) + "\n")
        cleanup()
        if not fresh:
            print(f"OK property={self.prop} traces={self.cover['traces_validated_against_impl']} states={self.cover['states']} seconds={time.time()-START:.1f}")
        return code


def load_known(prop):
    """Known findings: lines `known: property=<id> match=<key> <text>`, see known_findings.txt."""
    res = []
    f = VERIF / "known_findings.txt"
    if not f.exists():
        return res
    for line in f.read_text().splitlines():
        m = re.match(r"known: property=(\S+) match=(\S+) (.*)", line)
        if m and m.group(1) == prop:
            key = m.group(2)
            res.append({"text": m.group(3), "match": lambda v, key=key: v[2] and v[2].get("known") == key})
    return res
