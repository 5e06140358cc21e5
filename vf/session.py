"""Sessions (C24): reproducibility, side effects, refresh; traces for module Sessions."""

import hashlib
import json
import os
import random
import subprocess
import sys

import numpy as np
import yaml

from . import core, gen, programs, record, setups
from .core import THOROUGH, Weird

FWS = ["marlin_jd", "klipper", "marlin_jerk", "MKA", None]
FIELD = {"acc": ("p_acc", [400, 1500]), "jerk": ("jerk", [8, 3]), "vel": ("p_vel", [35, 50])}


def fp(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:16]


def numbers(sim):
    out = []
    for b in sim.blocklist:
        for s in b.get_segments():
            v = [s.t_begin, s.t_end]
            for x in (s.pos_begin, s.pos_end, s.vel_begin, s.vel_end):
                v += list(x.get_vec(withExtrusion=True))
            out.append([float(y) for y in v])
        out.append("|")
    return out


def values(sim, rnd):
    end = sim.blocklist[-1].get_segments()[-1].t_end
    fr = [0.0318309886, 0.3141592653, 0.6180339887, 0.7724538509, 0.9869604401]
    order = list(fr)
    rnd.shuffle(order)
    res = {}
    for x in order:
        v, p = sim.get_values(x * end, "SImm")
        res[x] = [[round(float(y), 6) + 0.0 for y in z] for z in (v, p)]
    return [res[x] for x in fr]


def process_state():
    """What a library has to leave alone."""
    import decimal
    import locale

    return fp((locale.setlocale(locale.LC_ALL), os.getcwd(), np.geterr(), sorted(np.get_printoptions().items(), key=str), str(decimal.getcontext())))


def mark(sim, rnd):
    r, err, _ = core.call(lambda: (fp(numbers(sim)), fp(values(sim, rnd))))
    if err:
        return {"traj": "", "vals": "", "err": "simulation unusable: " + err}
    return {"traj": r[0], "vals": r[1], "err": ""}


QUICK_QUERIES = ["settings", "values", "width", "series", "extent", "summary", "layers", "box", "read"]
SLOW_QUERIES = ["mesh", "velocity plot", "path plot"]


def query(sim, what, folder, rnd, setup=None):
    """Use the simulation in some way; failures are not judged here."""
    end = sim.blocklist[-1].get_segments()[-1].t_end
    record.mods()
    from pyGCodeDecode import abaqus_file_generator, tools

    import matplotlib.pyplot as plt

    def do():
        if what == "settings":  # a copy of the settings is the caller's own
            d = setup.get_dict()
            for k in list(d):
                if rnd.random() < 0.7:
                    d[k] = {"firmware": rnd.choice(FWS), "p_acc": 123, "X": 7, "E": 4}.get(k, 2)
        elif what == "values":
            for _ in range(4):
                sim.get_values(rnd.random() * end, rnd.choice([None, "SI", "inch"]))
        elif what == "width":
            sim.get_width(rnd.random() * end, 0.2, 1.75)
        elif what == "series":
            abaqus_file_generator.generate_abaqus_event_series(sim, filepath=folder / "e.inp", output_unit_system=rnd.choice([None, "SI"]))
        elif what == "extent":
            sim.extrusion_extent(rnd.choice([None, "SI"]))
            sim.extrusion_max_vel(rnd.choice([None, "inch"]))
        elif what == "summary":
            sim.save_summary(filepath=folder / "s.yaml")
        elif what == "layers":
            tools.save_layer_metrics(sim, filepath=folder / "l.csv", **rnd.choice([{}, {"locale": "C"}, {"locale": "C.UTF-8"}, {"locale": "xx_YY"}]))
        elif what == "box":
            tools.write_submodel_times(sim, [0, 0, 0], 5, 6, 7, filename=folder / "b.yaml")
        elif what == "read":
            for b in sim.blocklist:
                str(b), b.get_block_travel(), b.extrusion_block_max_vel()
                for s in b.get_segments():
                    str(s), s.get_position(s.t_begin), s.get_velocity(s.t_end), s.is_extruding()
            for s in sim.states:
                str(s), str(s.state_position)
        elif what == "mesh":
            sim.plot_3d(extrusion_only=rnd.random() < 0.3, screenshot_path=folder / "x.png", vtk_path=folder / "x.vtk")
        elif what == "velocity plot":
            sim.plot_vel(show=False, time_steps=rnd.choice(["constrained", 30]))
        elif what == "path plot":
            sim.plot_2d_position(filepath=False, show_points=rnd.random() < 0.5)

    core.call(do, seconds=60)
    if "plot" in what:
        plt.close("all")


def record_session(p, folder):
    gi, sg = record.mods()
    rnd = random.Random("s" + p["id"])
    cur = dict(p["set"])  # field -> number
    files = []
    for n, q in enumerate(p["programs"]):
        files.append(record.write_program(q, folder, f"prog{n}.gcode"))
        if n == p["id"].count("7") % 2:  # a comment from somewhere else
            files[n].write_bytes("; 20 °C, Düse \n".encode("latin-1" if len(p["ops"]) % 3 == 0 else "utf-8") + files[n].read_bytes())
    (folder / "presets.yaml").write_text(yaml.dump({"machine": properties(p, cur), "other": {"p_vel": 1}}))
    s = gi.setup(presets_file=folder / "presets.yaml", printer="machine", layer_cue="LAYER_CHANGE")
    s.set_initial_position(position(p, cur))
    outer = process_state()
    ev = [{"e": "begin", "id": p["id"], "set": cur | {}}]
    for prog, st, m in p.get("elsewhere", []):
        ev.append({"e": "elsewhere", "prog": prog, "set": st, **m})
    sims = []

    def states(prog):
        return sg.generate_states(filepath=files[prog - 1], initial_machine_setup=s.get_dict())

    for op in p["ops"]:
        o = op["o"]
        if o == "change":
            cur[op["f"]] = op["v"]
            if op["f"] == "pos":
                s.set_initial_position(position(p, cur))
            else:
                s.set_property({k: v for k, v in properties(p, cur).items() if k == ("firmware" if op["f"] == "fw" else FIELD[op["f"]][0])})
            ev.append({"e": "change", "f": op["f"], "v": op["v"]})
            continue
        err = None
        e = {"e": o}
        if o == "simulate":
            sim, err, _ = core.call(gi.simulation, gcode_path=files[op["prog"] - 1], initial_machine_setup=s, seconds=20)
            if err is None:
                sims.append(sim)
            e.update(prog=op["prog"], k=len(sims))
        elif o == "query":
            what = op.get("what") or (rnd.choice(SLOW_QUERIES) if rnd.random() < 0.04 else rnd.choice(QUICK_QUERIES))
            sim = sims[op["k"] - 1]
            query(sim, what, folder, rnd, s)
            e = {"e": "look", "k": op["k"], "after": what}
        elif o == "refresh":
            sim = sims[op["k"] - 1]
            _, err, _ = core.call(sim.refresh, **rnd.choice([{}, {"new_state_list": None}]))
            e.update(k=op["k"])
        elif o == "adopt":
            sim = sims[op["k"] - 1]
            _, err, _ = core.call(sim.refresh, sims[op["j"] - 1].states)
            e.update(k=op["k"], j=op["j"])
        elif o == "fresh":
            sim = sims[op["k"] - 1]
            _, err, _ = core.call(lambda: sim.refresh(new_state_list=states(op["prog"])))
            e.update(k=op["k"], prog=op["prog"])
        if e.get("after") in SLOW_QUERIES:
            outer = process_state()  # the graphics libraries change the locale of the process
        if process_state() != outer:
            outer = process_state()
            ev.append({"e": "process", "after": e.get("after", o)})
        if err is not None:
            return ev + [{"e": "crash", "id": p["id"], "err": f"{o} fails: {err}"}]
        ev.append(e | mark(sim, rnd))
    for k, sim in enumerate(sims, 1):  # the others have not changed either
        ev.append({"e": "look", "k": k, "after": "the session"} | mark(sim, rnd))
    return ev


def properties(p, cur):
    d = dict(vX=180, vY=180, vZ=30, vE=33, firmware=p["fws"][cur["fw"]])
    for f, (key, vals) in FIELD.items():
        d[key] = vals[cur[f]]
    return d


def position(p, cur):
    return (0, 0, 0, 0) if cur["pos"] == 0 else (3, -2.5, 1, 0.5)


ZERO = {"fw": 0, "acc": 0, "pos": 0, "jerk": 0, "vel": 0}


def two_programs(seed, fws):
    prof = ["rich", "motion", "dwell", "layers"]
    return [gen.program(core.SEED * 77001 + seed * 2 + i, prof[(seed + i) % 4], fw="MKA", n=4 + (seed + i) % 9) for i in (0, 1)]


def enumerated(check):
    depth = 6 if THOROUGH else 5
    ok, st, out = core.model_check(
        "MC_Session",
        f"SPECIFICATION Spec\nCONSTANT Depth = {depth}\nCONSTANT Export = TRUE\nINVARIANT Determined\nINVARIANT Leaf\n"
        "PROPERTY QueriesKeep\nCHECK_DEADLOCK FALSE\n",
    )
    check.model("MC_Session", ok, st, "Determined QueriesKeep", out)
    cs = sorted(setups.cases(out), key=setups.text)
    assert len(cs) > 10000
    r = random.Random(core.SEED)
    cs = r.sample(cs, 20000 if THOROUGH else 900)
    res = []
    for n, ops in enumerate(cs):
        val = {"fw": 0, "acc": 0, "pos": 0}
        out_ops = []
        for op in ops:
            op = dict(op)
            if op["o"] == "change":
                val[op["f"]] = 1 - val[op["f"]]
                op["v"] = val[op["f"]]
            out_ops.append(op)
        res.append(dict(id=f"session-{n}", programs=two_programs(n % 40, None), fws=r.sample(FWS, 2), set=dict(ZERO), ops=out_ops))
    return res


def random_session(seed):
    r = random.Random(f"session{core.SEED}/{seed}")
    ops, n = [{"o": "simulate", "prog": r.choice([1, 2])}], 1
    for _ in range(r.randint(4, 16)):
        o = r.choice(["change", "change", "simulate", "query", "query", "query", "refresh", "adopt", "fresh"])
        k = r.randint(1, n)
        if o == "change":
            ops.append({"o": o, "f": r.choice(list(ZERO)), "v": r.choice([0, 1])})
        elif o == "simulate":
            if n < 4:
                n += 1
                ops.append({"o": o, "prog": r.choice([1, 2])})
        elif o == "adopt":
            j = r.randint(1, n)
            if j != k:
                ops.append({"o": o, "k": k, "j": j})
        elif o == "fresh":
            ops.append({"o": o, "k": k, "prog": r.choice([1, 2])})
        elif o == "query" and r.random() < 0.12:
            ops.append({"o": o, "k": k, "what": r.choice(SLOW_QUERIES)})
        else:
            ops.append({"o": o, "k": k})
    return dict(id=f"random-{seed}", programs=two_programs(1000 + seed, None), fws=r.sample(FWS, 2), set={k: r.choice([0, 1]) for k in ZERO}, ops=ops)


# ------------------------------------------------------------------ another process
def elsewhere(p):
    """[(program, settings, marks)]: the simulations of a session's first settings, made in this process."""
    out = []
    for n in (2, 1):
        q = dict(p)
        q["ops"] = [{"o": "simulate", "prog": n}]
        ev = record_session(q, core.scratch())
        m = ev[-1] if ev[-1]["e"] == "look" else None
        if m is not None:
            out.append([n, dict(p["set"]), {k: m[k] for k in ("traj", "vals", "err")}])
    return out


def main():
    progs = json.load(sys.stdin)
    json.dump({p["id"]: elsewhere(p) for p in progs}, sys.stdout)
    core.cleanup()


def run_elsewhere(progs):
    from concurrent.futures import ThreadPoolExecutor

    chunks = [c for c in (progs[k :: core.JOBS] for k in range(core.JOBS)) if c]

    def one(k):
        env = dict(os.environ, PYTHONHASHSEED=str(100 + k), PYTHONPATH=str(core.VERIF), TZ="UTC-5")
        r = subprocess.run([sys.executable, "-c", "from vf import session; session.main()"], input=json.dumps(chunks[k]),
                           capture_output=True, text=True, env=env, cwd=core.scratch(), timeout=600)
        if r.returncode:
            return {}
        return json.loads(r.stdout.splitlines()[-1])

    with ThreadPoolExecutor(len(chunks)) as ex:
        for res in ex.map(one, range(len(chunks))):
            for p in progs:
                if p["id"] in res:
                    p["elsewhere"] = res[p["id"]]


def run(check):
    progs = enumerated(check) + [random_session(i) for i in range(4000 if THOROUGH else 250)]
    r = random.Random(core.SEED)
    run_elsewhere(r.sample(progs, 3000 if THOROUGH else 240))
    byid = {p["id"]: p for p in progs}
    for k in range(0, len(progs), 4000):
        part = progs[k : k + 4000]
        traces = programs.record_all(part, fn=record_session)
        bad, st = core.validate("Sessions", traces, ["C24"])
        check.traces(st, [{"id": p["id"], "ops": p["ops"]} for p in part[-2:]])
        tr = dict(traces)
        for clause, pid, where in bad:
            e = tr[pid][where] if 0 < where < len(tr[pid]) else tr[pid][-1]
            check.violation(clause, f"{pid} event {where}: {setups.text(e)[:300]}", dict(session=byid[pid], event=e))
