"""What is printed, on a usual console and inside of ABAQUS (C38); traces for module Console."""

import io
import json
import os
import pathlib
import random
import re
import subprocess
import sys

from . import core, programs, record
from .core import THOROUGH, codes, flt

BAR = re.compile(r"\r\[([#-]*)\] (-?[\d.]+) % of ((?:[A-Z0-9][A-Za-z0-9]* )*)(Done\.\.\.\r\n|Halt\.\.\.\r\n|error[^\r\n]*\r\n)?")
HEAD = re.compile(r"extracted (\d+) states? from (.*?) and generated (\d+) planner blocks?.*?is ([\d.]+) seconds", re.S)
WRONG = re.compile("does not adhere|could not be modeled|[Dd]iscon+tinuity")
NAMES = ["teil.gcode", "prüfling.gcode", "Würfel 20 µm – ø.gcode", "部品.gcode", "a b.gcode", "x✅.gcode"]


# ------------------------------------------------------------------ inside of the process that stands for a console
def bars(text):
    out = []
    for m in BAR.finditer(text):
        s = {None: "", "D": "done", "H": "halt"}.get(m.group(4) and m.group(4)[0], "other")
        out.append({"h": m.group(1).count("#"), "w": len(m.group(1)), "t": round(float(m.group(2)) * 10), "n": m.group(3).strip(), "s": s})
    return out


def run_op(fn, ascii_only):
    raw = io.BytesIO()
    out = io.TextIOWrapper(raw, encoding="ascii" if ascii_only else "utf-8", newline="", write_through=True)
    keep, sys.stdout = sys.stdout, out
    res, err = None, ""
    try:
        with core.limit(60):
            res = fn()
    except Exception as e:  # noqa: B902
        err = type(e).__name__ + ": " + str(e)[:150]
    finally:
        sys.stdout = keep
    out.flush()
    return res, err, raw.getvalue().decode("utf-8", "replace")


def digest(sim):
    return [repr(float(y)) for b in sim.blocklist for s in b.get_segments()
            for y in [s.t_begin, s.t_end, *s.pos_end.get_vec(withExtrusion=True), *s.vel_end.get_vec(withExtrusion=True)]]


def program_ops(p, folder, ascii_only):
    gi, _ = record.mods()
    from pyGCodeDecode import abaqus_file_generator, tools

    d = folder / p["folder"]
    d.mkdir(parents=True, exist_ok=True)
    file = record.write_program(p, d, p["name"])
    sim = None
    res = []
    for k, op in enumerate(p["ops"]):
        f = d / (p["out"] + str(k))
        saved, fn = [], None
        if op == "create":
            setup = record.make_setup(p, d)
            fn = lambda: gi.simulation(gcode_path=file, initial_machine_setup=setup)  # noqa: E731
        elif op == "refresh":
            fn = lambda: sim.refresh()  # noqa: E731
        elif op == "summary":
            f = f.with_suffix(".yaml")
            saved, fn = [f], lambda: sim.save_summary(f)
        elif op == "metrics":
            f = f.with_suffix(".csv")
            saved, fn = [f], lambda: tools.save_layer_metrics(sim, filepath=f, **[{}, {"locale": "C"}, {"locale": "C.UTF-8"}][k % 3])
        elif op == "series":
            f = f.with_suffix(".inp")
            saved, fn = [f], lambda: abaqus_file_generator.generate_abaqus_event_series(sim, filepath=str(f))
        elif op == "plot2d":
            f = f.with_suffix(".png")
            saved, fn = [f], lambda: sim.plot_2d_position(filepath=f, dpi=20, show_points=k % 2 == 1)
        elif op == "plot3d":
            f = f.with_suffix(".vtk")
            saved, fn = [f], lambda: sim.plot_3d(vtk_path=f, extrusion_only=False) and None
        elif op == "plotvel":
            fn = lambda: sim.plot_vel(show=False) and None  # noqa: E731
        if fn is None or (sim is None and op != "create"):
            continue
        out, err, text = run_op(fn, ascii_only)
        e = {"op": op, "err": err, "bars": bars(text), "saved": []}
        if op == "create" and not err:
            sim = out
            e["want"] = {"states": len(sim.states), "blocks": len(sim.blocklist), "secs": flt(sim.blocklist[-1].get_segments()[-1].t_end),
                         "lines": len(record.file_lines(p))}
        for x in saved:
            name = str(x).encode("ascii", "ignore").decode() if ascii_only else str(x)
            e["saved"].append({"exists": x.exists(), "named": name in text})
        e["heads"] = [{"states": int(m[0]), "blocks": int(m[2]), "secs": flt(float(m[3])), "named": os.path.basename(str(file)) in m[1]}
                      for m in HEAD.findall(text)]
        e["parsed"] = [int(x) for x in re.findall(r"(\d+) lines parsed", text)]
        e["warnings"] = len(WRONG.findall(text))
        e["text"] = re.sub(r"took [\d.e-]+ s\b", "took T s", BAR.sub("", text))
        e["result"] = digest(sim) if sim is not None and not err else []
        if op in ("metrics", "series") and not err:
            e["result"].append(repr(out))
        res.append(e)
    return res


def loop_ops(p, ascii_only):
    gi, _ = record.mods()
    res = []
    for k, n, name in p["loop"]:
        _, err, text = run_op(lambda: gi.update_progress(k / n, name) if name != "Percent" else gi.update_progress(k / n), ascii_only)
        res.append({"k": k, "n": n, "name": name, "err": err, "out": bars(text)})
    return res


def main(jobs, out, abaqus):
    if abaqus:
        sys.executable = "C:\\SIMULIA\\EstProducts\\2023\\win_b64\\code\\bin\\ABQcaeK.exe"
    record.mods()
    res = []
    for p in json.loads(pathlib.Path(jobs).read_text()):
        try:
            res.append(loop_ops(p, abaqus) if "loop" in p else program_ops(p, pathlib.Path(jobs).parent / p["id"], abaqus))
        except Exception as e:  # noqa: B902
            res.append({"crash": "unreadable result: " + type(e).__name__ + " " + str(e)[:150]})
    pathlib.Path(out).write_text(json.dumps(res))


# ------------------------------------------------------------------ the harness
def record_console(batch, folder):
    import shutil

    jobs = folder / "jobs.json"
    got = []
    for abaqus in (0, 1):
        for p in batch["jobs"]:
            shutil.rmtree(folder / p["id"], ignore_errors=True)
        jobs.write_text(json.dumps(batch["jobs"]))
        out = folder / f"out{abaqus}.json"
        r = subprocess.run([sys.executable, "-c", f"from vf import console; console.main({str(jobs)!r}, {str(out)!r}, {abaqus})"],
                           cwd=pathlib.Path(__file__).resolve().parent.parent, capture_output=True, text=True, timeout=800,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONIOENCODING="utf-8"))
        if not out.exists():
            return [{"e": "crash", "id": batch["id"], "err": "no result: " + r.stderr.strip()[-150:]}]
        got.append(json.loads(out.read_text()))
    ev = []
    for p, a, b in zip(batch["jobs"], *got):
        if isinstance(a, dict) or isinstance(b, dict):
            ev.append({"e": "crash", "id": p["id"], "err": (a if isinstance(a, dict) else b)["crash"]})
            continue
        for what, res in [("", a), ("/abaqus", b)] if "loop" in p else []:
            ev.append({"e": "begin", "id": p["id"] + what})
            ev += [dict(x, e="show") for x in res]
        if "loop" in p:
            continue
        ev.append({"e": "begin", "id": p["id"]})
        for k, x in enumerate(a):
            y = b[k] if k < len(b) else {"err": "not run", "text": "", "bars": [], "result": []}
            ev.append({"e": "op", "op": x["op"], "err": x["err"], "abqerr": y["err"], "bars": x["bars"], "abqbars": y["bars"], "heads": x["heads"],
                       "parsed": x["parsed"], "warnings": x["warnings"], "saved": x["saved"],
                       "want": x.get("want", {"states": 0, "blocks": 0, "secs": [0, 0], "lines": 0}),
                       "plain": codes(x["text"]), "abaqus": codes(y["text"]), "same": x["result"] == y["result"]})
    return ev


def session(p, r):
    ops = ["create"]
    ops += r.sample(["summary", "metrics", "series", "refresh"], r.randint(1, 4))
    if r.random() < 0.3:
        ops.insert(r.randint(1, len(ops)), r.choice(["plot2d", "plot3d", "plotvel"]))
    p.update(ops=ops, name=r.choice(NAMES), folder=r.choice(["d", "größe", "o ✅"]), out=r.choice(["r", "übersicht", "s 1 "]))
    return p


def loops(r, k):
    out = [(-1, 1, "Percent")]
    for _ in range(r.randint(1, 4)):
        n = r.choice([1, 2, 3, 7, 8, 10, 16, 40, 64, 200, 999, 1000, 1001, 3000])
        name = r.choice(["Percent", "Bar", "Layer Plot", "Step 2"])
        i = r.randint(-1, 1)
        while i <= n + 1 and len(out) < 120:
            out.append((i, n, name))
            if r.random() < 0.15:
                out.append((i, n, name))
            i += 1 if n < 20 or r.random() < 0.5 else r.randint(1, max(1, n // 10))
            if r.random() < 0.03:
                i = max(-1, i - r.randint(0, 5))
        out += [(i, n, name) for i in (r.choice([0, 1, n // 2]), n - 2, n - 1, n)]
    return {"id": f"loop-{k}", "loop": out}


def run(check):
    n, m = (6, 3) if THOROUGH else (4, 2)
    consts = f"CONSTANTS MaxSteps = {n} Loops = {m} Jumps = %s Export = %s\nINVARIANTS InRange EndsDone SilentIsKnown OneOrTwo Leaf\n"
    ok, st, out = core.model_check("MC_Progress", f"SPECIFICATION Spec\n{consts % ('TRUE', 'TRUE')}PROPERTY Rises\nVIEW View\nCHECK_DEADLOCK FALSE\n")
    check.model("MC_Progress", ok, st, "InRange EndsDone SilentIsKnown OneOrTwo Rises", out)
    from . import vectors

    found = sorted({json.dumps(x) for x in vectors.exported(out, "VF-LOOPS")})
    r = random.Random(core.SEED)
    found = [json.loads(x) for x in r.sample(found, min(len(found), 2000 if THOROUGH else 300))]
    jobs = [{"id": f"enum-{k}", "loop": [(-1, 1, "Percent")] + [(a, b, "Percent") for a, b in x]} for k, x in enumerate(found)]
    scale = 8 if THOROUGH else 1
    jobs += [loops(random.Random(f"{core.SEED}/loops/{k}"), k) for k in range(60 * scale)]
    mix = {"layers": 40, "rich": 50, "dwell": 20, "text": 20, "units": 15, "corners": 30, "chain": 3, "ramp": 10, "touch": 20}
    for p in programs.random_programs(mix, scale):
        jobs.append(session(p, random.Random(p["id"] + "/session")))
    r.shuffle(jobs)
    size = max(8, len(jobs) // (core.JOBS * 4) + 1)
    batches = [{"id": f"batch-{k}", "jobs": jobs[k : k + size]} for k in range(0, len(jobs), size)]
    traces = programs.record_all(batches, fn=record_console)
    bad, st = core.validate("Console", traces, [check.prop])
    byid = {p["id"]: p for p in jobs}
    tr, cur = {}, None
    for _, es in traces:
        for e in es:
            if e["e"] in ("begin", "crash"):
                cur = tr.setdefault(e["id"], [])
            cur.append(e)
    st["traces"] = len(tr)
    check.traces(st, [byid[k] for k in list(byid)[:1] + list(byid)[-2:]])
    for clause, pid, i in bad:
        es = tr.get(pid, [])
        e = {k: v for k, v in es[i].items() if k not in ("plain", "abaqus", "bars", "abqbars")} if i < len(es) else ""
        check.violation(clause, f"{pid} operation {i}: {str(e)[:300]}", dict(input=byid.get(pid.split("/")[0]), run=es))
