"""Reports about whole simulations: layer metrics (C19), summary (C18), and their unit systems (C17)."""

import pathlib
import random

import yaml

from . import core, gen, motion, programs, record
from .core import THOROUGH, Weird, flt, flts, secs

UNITS = ["SI", "SImm", "inch"]


def tools():
    record.mods()
    from pyGCodeDecode import tools as t

    return t


def rows_event(layers, durs, dists, speeds):
    rows = []
    for a, b, c, d in zip(layers, durs, dists, speeds, strict=True):
        nan = isinstance(d, str) and d.strip().lower() == "nan" or d != d
        rows.append({"layer": int(a), "dur": flt(b), "dist": flt(c), "speed": [] if nan else [flt(d)]})
    return rows


def read_rows(f, delimiter):
    text = pathlib.Path(f).read_text().splitlines()
    cells = [[c.strip() for c in x.split(delimiter)] for x in text[1:] if x.strip()]
    if any(len(c) != 4 for c in cells):
        raise Weird("a line of the layer metrics with other than four values")
    return rows_event(*zip(*cells)) if cells else []


def layer_events(p, sim, folder, rnd):
    delimiter = rnd.choice([";", ",", "\t", "|"])
    f = record.stale(folder / rnd.choice(["metrics.csv", "new/sub/metrics.csv"]), "rows", rnd)
    res, err, _ = core.call(tools().save_layer_metrics, sim, filepath=f, delimiter=delimiter)
    if err:
        raise Weird("layer metrics: " + err)
    rows = rows_event(*res)
    return [{"e": "layers", "rows": rows, "file": read_rows(f, delimiter)}]


def fresh_yaml(f):
    try:
        d = yaml.safe_load(f.read_text())
    except yaml.YAMLError as err:
        raise Weird("no YAML: " + str(err)[:60])
    if not isinstance(d, dict) or any(str(k).startswith("stale") for k in d):
        raise Weird("the file keeps what it held before")
    return d


def summary_events(p, sim, folder, unit, rnd):
    ev = []
    own = unit or "SImm"
    for u in UNITS + [None]:
        ext, err, _ = core.call(sim.extrusion_extent, u) if rnd.random() < 0.5 else core.call(
            sim.extrusion_extent, output_unit_system=u
        )
        obs = []
        if err is None:
            v, err, _ = core.call(sim.extrusion_max_vel, u)
            if err:
                raise Weird("maximum velocity: " + err)
            obs = [{"lo": flts(ext[0]), "hi": flts(ext[1]), "vmax": flt(v)}]
        elif not err.startswith("ValueError"):
            raise Weird("extent: " + err)
        ev.append({"e": "summary", "unit": u or own, "obs": obs, "tend": [], "name": True})
    f = record.stale(folder / rnd.choice(["s.yaml", "x/y/s.yaml"]), "yaml", rnd)
    _, err, _ = core.call(sim.save_summary, f)
    obs, tend, name = [], [], True
    if err is None:
        d = fresh_yaml(f)
        obs = [
            {
                "lo": flts([d["x_min"], d["y_min"], d["z_min"]]),
                "hi": flts([d["x_max"], d["y_max"], d["z_max"]]),
                "vmax": flt(d["max_extrusion_travel_velocity"]),
            }
        ]
        tend = [secs(d["t_end"])]
        name = d["filename"] == str(sim.filename)
    elif not err.startswith("ValueError"):
        raise Weird("summary: " + err)
    ev.append({"e": "summary", "unit": own, "obs": obs, "tend": tend, "name": name})
    return ev


def record_reports(p, folder, layers=False, summary=False):
    rnd = random.Random(p["id"])
    unit = rnd.choice([None, "SI", "SImm", "inch"])
    ev = [record.begin_event(p)]
    kw = {} if unit is None else {"output_unit_system": unit}
    other = random.Random("o" + p["id"])

    def ask(sim, d):
        return layers and layer_events(p, sim, d, other) or summary and summary_events(p, sim, d, unit, other)

    make = lambda: record.simulate(p, folder, **kw)  # noqa: E731
    if other.random() < 0.3:
        make = lambda: record.taken_over(p, folder, ask, **kw)  # noqa: E731
    sim, err, out = core.call(make, seconds=40)
    if err is not None:
        return ev + [{"e": "crash", "id": p["id"], "err": "exception " + err}]
    try:
        ev += record.events_of(p, sim, {}, out, instants=False)
        if layers:
            ev += layer_events(p, sim, folder, rnd)
        if summary:
            ev += summary_events(p, sim, folder, unit, rnd)
    except Weird as w:
        ev.append({"e": "crash", "id": p["id"], "err": str(w)})
    return ev


def check_reports(check, progs, **kw):
    byid = {p["id"]: p for p in progs}
    for k in range(0, len(progs), 3000):
        part = progs[k : k + 3000]
        traces = programs.record_all(part, fn=record_reports, **kw)
        bad, st = core.validate("Run", traces, [check.prop])
        check.traces(st, [programs.sample(p) for p in part[:2]] if k == 0 else [])
        for clause, pid, where in bad:
            check.violation(clause, f"program {pid} ({byid[pid]['fw']})", dict(program=byid[pid]))


LAYERED = [
    ";" + gen.CUE,
    "G1 X10",
    "G1 Y4 ;" + gen.CUE,
    "G4 P100",
    "G4 P0",
    "G1 E1",
    "",
    "G1 X3 Y3",
    ";" + gen.CUE + "2",
]
EXTRUDED = [
    "G1 X10 E1",
    "G1 X20 Y5",
    "G0 Z5 E3",
    "G1 X-10 E0.5",
    "G92 E0",
    "M83",
    "G1 Y-3 E.2 F6000",
    "G1 E2",
    "G4 P10",
    "G1 X2 E0",
    "G91",
]


def run_layers(check):
    for p in motion.enum(check, "layered", LAYERED, 3, 5, quick_limit=800, fws=motion.FW, cue=gen.CUE, suffix=["G1 X1 Y1"]), \
            motion.enum(check, "trailing", LAYERED, 3, 5, quick_limit=800, fws=motion.FW, cue=gen.CUE, prefix=["G1 X1 Y1"]):
        check_reports(check, p, layers=True)
    progs = [dict(p, cue=gen.CUE) for p in programs.random_programs({"layers": 400, "rich": 100, "dwell": 50}, 12 if THOROUGH else 1)]
    check_reports(check, progs, layers=True)


def run_summary(check):
    p = motion.enum(check, "extruded", EXTRUDED, 3, 4, quick_limit=1400, fws=motion.FW, suffix=["G1 X1 Y1"])
    check_reports(check, p, summary=True)
    progs = programs.random_programs({"rich": 250, "motion": 150, "modal": 100, "units": 50}, 12 if THOROUGH else 1)
    check_reports(check, progs, summary=True)
