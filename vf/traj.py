"""Everything read off a finished trajectory: values (C16), units (C17), boxes (C20), event series (C21), mesh (C25),
plots (C26) and widths (C27); traces for module Traj."""

import json
import pathlib
import random
import re
import warnings

import numpy as np
import yaml

from . import core, gen, motion, programs, record
from .core import THOROUGH, Weird, flt, flts, nms, secs

UNITS = ["SI", "SImm", "inch"]
FACTOR = {"SI": 1e-3, "SImm": 1.0, "inch": 1 / 25.4}


def segments(sim):
    return [s for b in sim.blocklist for s in b.get_segments()]


def begin(p, segs):
    out = []
    for s in segs:
        pb, pe = s.pos_begin.get_vec(withExtrusion=True), s.pos_end.get_vec(withExtrusion=True)
        out.append(
            {
                "tb": secs(s.t_begin),
                "te": secs(s.t_end),
                "dt": flt(s.t_end - s.t_begin),
                "pb": nms(pb),
                "pe": nms(pe),
                "vb": flts(s.vel_begin.get_vec(withExtrusion=True)),
                "ve": flts(s.vel_end.get_vec(withExtrusion=True)),
                "de": flt(pe[3] - pb[3]),
            }
        )
    return {"e": "begin", "id": p["id"], "segs": out}


def query_times(rnd, segs, n):
    """Instants of all kinds, in an order that moves the cursor back and forth."""
    tend = segs[-1].t_end
    ts = [0.0, tend]
    for _ in range(n):
        s = rnd.choice(segs)
        x = rnd.random()
        if x < 0.3:
            ts.append(s.t_begin if rnd.random() < 0.5 else s.t_end)
        elif x < 0.7:
            ts.append(min(tend, s.t_begin + rnd.random() * (s.t_end - s.t_begin)))
        else:
            ts.append(rnd.random() * tend)
    x = rnd.random()
    if x < 0.5:
        rnd.shuffle(ts)
    elif x < 0.7:
        ts.sort(reverse=True)
    elif x < 0.9:
        ts.sort()
    ts += [rnd.choice(ts) for _ in range(2)]
    return [float(t) for t in ts]


def value_events(sim, ts, own, rnd, units):
    ev = []
    for t in ts:
        u = rnd.choice(UNITS + [None]) if units else None
        args = () if u is None else (u,)
        kw = {}
        if u is not None and rnd.random() < 0.5:
            args, kw = (), {"output_unit_system": u}
        e = {"e": "value", "t": secs(t), "unit": u or own, "err": "", "v": [[0, 0]] * 4, "p": [[0, 0]] * 4}
        res, err, _ = core.call(sim.get_values, t, *args, **kw)
        if err is None:
            try:
                e["v"], e["p"] = flts(res[0]), flts(res[1])
                if len(e["v"]) != 4 or len(e["p"]) != 4:
                    e["err"] = "wrong number of values"
            except (Weird, TypeError, IndexError) as w:
                e["err"] = str(w)
        else:
            e["err"] = "query fails: " + err
        ev.append(e)
    return ev


def width_events(sim, ts, rnd):
    ev = []
    for t in ts:
        h, d = rnd.choice([0.1, 0.15, 0.2, 0.35, 0.6]), rnd.choice([1.75, 2.85, 0.36])
        e = {"e": "width", "t": secs(t), "h": flt(h), "d": flt(d), "w": [0, 0], "err": ""}
        res, err, _ = core.call(sim.get_width, t, h, d)
        if err is None:
            try:
                e["w"] = flt(res)
            except Weird as w:
                e["err"] = str(w)
        else:
            e["err"] = "query fails: " + err
        ev.append(e)
    return ev


def series_rows(rows):
    out = []
    for r in rows:
        if len(r) != 5:
            raise Weird("event with other than five values")
        if float(r[4]) not in (0.0, 1.0):
            raise Weird("extrusion flag " + str(r[4]))
        out.append({"t": secs(r[0]), "p": flts(r[1:4]), "flag": int(float(r[4]))})
    return out


def series_event(sim, folder, own, rnd, segs, unit=...):
    record.mods()
    from pyGCodeDecode.abaqus_file_generator import generate_abaqus_event_series as g

    u = rnd.choice(UNITS + [None]) if unit is ... else unit
    kw = {} if u is None else {"output_unit_system": u}
    tol = rnd.choice([None, 1e-12, 0.05, 0.3, 1.0])
    des = [s.pos_end.e - s.pos_begin.e for s in segs]
    if tol is not None and tol > 1e-9 and not all(abs(d - tol) > 1e-6 for d in des):
        tol = None
    if tol is not None:
        kw["tolerance"] = tol
    f = record.stale(folder / rnd.choice(["ev.inp", "deep/er/ev.inp"]), "rows", rnd)
    res, err, _ = core.call(g, sim, filepath=rnd.choice([f, str(f)]), **kw)
    if err:
        raise Weird("event series: " + err)
    if not isinstance(res, tuple):
        raise Weird("event series is no tuple")
    file = [x.split(",") for x in f.read_text().splitlines() if x.strip()]
    return {"e": "series", "unit": u or own, "tol": flt(tol if tol is not None else 1e-12), "rows": series_rows(res), "file": series_rows(file)}


# ------------------------------------------------------------------ boxes
def rational(rnd, lo, hi):
    """Half of the limits of a box have a few decimals, half are whole."""
    if rnd.random() < 0.5:
        return rnd.randint(int(lo) - 2, int(hi) + 2)
    return round(rnd.uniform(lo - 2, hi + 2), rnd.choice([1, 2, 3]))


def boxes(rnd, segs, n):
    pts = [segs[0].pos_begin.get_vec()] + [s.pos_end.get_vec() for s in segs]
    res = []
    for _ in range(n):
        c, s = [], []
        a, b = rnd.choice(pts), rnd.choice(pts)
        vertex = rnd.randrange(9)  # at most one axis has a vertex of the path as limit
        for k in range(3):
            x = rnd.random()
            if x < 0.55:
                u, v = rational(rnd, min(a[k], b[k]), max(a[k], b[k])), rational(rnd, min(a[k], b[k]), max(a[k], b[k]))
            elif k == vertex:
                u, v = round(float(a[k]), 3), round(float(a[k]), 3) + rnd.choice([-1, 1]) * rnd.choice([0.5, 2, 10, 100])
            else:
                u, v = -400, 400
            lo, hi = min(u, v), max(u, v)
            if hi - lo < 0.01:
                hi = lo + rnd.choice([0.5, 1, 4])
            c.append(round((lo + hi) / 2, 6))
            s.append(round(hi - lo, 6))
        res.append((c, s))
    return res


def box_event(sim, folder, c, s, rnd, want=()):
    record.mods()
    from pyGCodeDecode.tools import write_submodel_times as g

    lo = [round((x - y / 2) * 1e6) for x, y in zip(c, s)]
    hi = [round((x + y / 2) * 1e6) for x, y in zip(c, s)]
    f = folder / "sub.yaml"
    extra = rnd.choice([{}, {"name": "part", "layer": 3}])
    write = rnd.random() < 0.7
    e = {"e": "box", "lo": lo, "hi": hi, "tin": [], "tout": [], "n": 0, "total": [0, 0], "err": "", "file": True,
         "want": list(want)}
    res, err, _ = core.call(g, sim, list(c), *s, filename=f if write else None, **extra)
    if err:
        e["err"] = "submodel times: " + err
        return e
    try:
        e["tin"] = [secs(t) for t in res["time_in"]]
        e["tout"] = [secs(t) for t in res["time_out"]]
        e["n"] = int(res["n_filaments"])
        e["total"] = secs(res["time_process"])
        if write:
            d = yaml.safe_load(f.read_text())
            e["file"] = d == dict(res) and all(d.get(k) == v for k, v in extra.items())
    except (Weird, KeyError, TypeError, yaml.YAMLError) as w:
        e["err"] = "submodel times: " + str(w)[:100]
    return e


# ------------------------------------------------------------------ mesh
def pieces(mesh):
    """The straight pieces of tube of a mesh, in order: pairs of rings of six points joined by a strip."""
    pts = np.asarray(mesh.points, dtype=float)
    vel = np.asarray(mesh["velocity"], dtype=float)
    if len(pts) % 6:
        raise Weird("mesh: incomplete rings")
    centre = pts.reshape(-1, 6, 3).mean(axis=1)
    v = vel.reshape(-1, 6).mean(axis=1)
    if np.abs(vel.reshape(-1, 6) - v[:, None]).max(initial=0) > 1e-3:
        raise Weird("mesh: velocity differs along a ring")
    cells = np.asarray(mesh.cells)
    seen, out = set(), []
    i = 0
    while i < len(cells):
        n = int(cells[i])
        rings = cells[i + 1 : i + 1 + n] // 6
        i += n + 1
        for a, b in zip(rings, rings[1:]):
            a, b = int(min(a, b)), int(max(a, b))
            if a != b and (a, b) not in seen:
                seen.add((a, b))
                out.append((a, b))
    out.sort()
    return [{"a": nms(centre[a]), "b": nms(centre[b]), "va": flt(v[a]), "vb": flt(v[b])} for a, b in out]


def mesh_events(sim, folder, rnd, segs):
    import pyvista as pv

    pv.OFF_SCREEN = True
    ev = []
    modes = [True, False] if any(s.pos_end.e - s.pos_begin.e > 1e-9 and moved(s) for s in segs) else [False]
    if not any(moved(s) for s in segs):
        return []
    rnd.shuffle(modes)
    old = None
    for only in modes:
        f = folder / f"m{only}.vtk"
        e = {"e": "mesh", "all": not only, "tubes": [], "file": True, "reuse": True, "err": ""}
        save = rnd.random() < 0.6
        kw = {"vtk_path": f} if save else {}
        if only is False or rnd.random() < 0.5:
            kw["extrusion_only"] = only
        if rnd.random() < 0.6:
            kw["screenshot_path"] = folder / "s.png"
        mesh, err, _ = core.call(sim.plot_3d, seconds=60, **kw)
        try:
            if err:
                raise Weird("mesh: " + err)
            e["tubes"] = pieces(mesh)
            if save:
                back = pv.read(f)
                e["file"] = pieces(back) == e["tubes"]
            if rnd.random() < 0.4:
                g = folder / "again.vtk"
                before = pieces(old or mesh)
                again, err, _ = core.call(sim.plot_3d, mesh=old or mesh, vtk_path=g, screenshot_path=folder / "s.png")
                if err:
                    raise Weird("mesh reuse: " + err)
                e["reuse"] = again is (old or mesh) and pieces(again) == before and pieces(pv.read(g)) == before
        except (Weird, KeyError, ValueError, AttributeError) as w:
            e["err"] = str(w)[:150]
        old = mesh
        ev.append(e)
    return ev


def moved(s):
    return float(np.linalg.norm(np.asarray(s.pos_end.get_vec()) - np.asarray(s.pos_begin.get_vec()))) > 0


# ------------------------------------------------------------------ plots
def curve_event(sim, folder, rnd, segs):
    axes = rnd.choice([("x", "y", "z", "e")] * 3 + [("x",), ("e", "y"), ("z", "x")])
    steps = rnd.choice(["constrained", "constrained", 1, 2, 17, 60])
    kw = dict(axis=axes, show=rnd.random() < 0.2, time_steps=steps, show_planner_blocks=rnd.random() < 0.5,
              show_segments=rnd.random() < 0.3, show_jv=rnd.random() < 0.4)
    if rnd.random() < 0.15:
        kw.update(filepath=folder / "v.png", dpi=40)
    e = {"e": "curves", "steps": 0 if steps == "constrained" else steps, "axes": [1 + "xyze".index(a) for a in axes],
         "ts": [], "c": [], "abs": [], "err": "", "ends": block_ends(sim), "blocks": kw["show_planner_blocks"],
         "segments": kw["show_segments"], "corners": kw["show_jv"], "lines": [], "marks": []}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fig, err, _ = core.call(sim.plot_vel, seconds=60, **kw)
    try:
        if err:
            raise Weird("velocity plot: " + err)
        a1, a2 = fig.axes[0], fig.axes[1]
        named = {ln.get_label(): ln for ln in a1.lines}
        pos = [ln for ln in a2.lines]
        if len(pos) != len(axes):
            raise Weird("velocity plot: wrong number of position curves")
        ts = [float(t) for t in named["abs"].get_xdata()]
        e["ts"] = [secs(t) for t in ts]
        flat = [ln.get_xdata() for ln in a1.lines if ln.get_label().startswith("_") and len(ln.get_xdata()) == 2]
        e["lines"] = [secs(x[0]) for x in flat if x[0] == x[1]]
        e["marks"] = [{"t": secs(x), "v": flt(y)} for c in a1.collections for x, y in c.get_offsets()]
        e["abs"] = flts(named["abs"].get_ydata())
        for a, pl in zip(axes, pos):
            vl = named[a]
            for ln in (vl, pl):
                if [float(t) for t in ln.get_xdata()] != ts:
                    raise Weird("velocity plot: curves at different times")
            e["c"].append({"axis": 1 + "xyze".index(a), "v": flts(vl.get_ydata()), "p": flts(pl.get_ydata())})
    except (Weird, KeyError, IndexError, AttributeError, TypeError) as w:
        e["err"] = (str(w) or type(w).__name__)[:150]
    finally:
        import matplotlib.pyplot as plt

        plt.close("all")
    return e


def block_events(sim, rnd, want=None):
    """What blocks say of themselves, and when they reach a distance."""
    e = {"e": "blocks", "b": [], "err": ""}
    at, ranges, order = 0, [], {id(b): n for n, b in enumerate(sim.blocklist, 1)}
    for b in sim.blocklist:
        ranges.append((b, at + 1, at + len(b.get_segments())))
        at = ranges[-1][2]
    try:
        for b, i, j in ranges:
            top = b.extrusion_block_max_vel()
            e["b"].append({"i": i, "j": j, "travel": flt(b.get_block_travel()), "ex": bool(b.is_extruding),
                           "top": [] if top is None else flts(top),
                           "prev": order.get(id(b.prev_block), 0 if b.prev_block is None else -1),
                           "next": order.get(id(b.next_block), 0 if b.next_block is None else -1)})
    except Exception as x:  # noqa: B902
        e["err"] = "blocks: " + type(x).__name__ + " " + str(x)[:100]
    ev = [e]
    for n, (b, i, j) in enumerate(ranges):
        if want is None and len(ranges) > 6 and rnd.random() > 6 / len(ranges):
            continue
        long = sum(float(np.linalg.norm(np.subtract(s.pos_end.get_vec(), s.pos_begin.get_vec()))) for s in b.get_segments())
        given = dict(want[n]) if want else {}
        part, ends = 0.0, []
        for s in b.get_segments():
            part += float(np.linalg.norm(np.subtract(s.pos_end.get_vec(), s.pos_begin.get_vec())))
            ends.append(min(part, long))
        ds = list(given) or [0, 0.0, long, rnd.random() * long, rnd.choice(ends), ends[0], rnd.random() ** 4 * long]
        beyond = rnd.choice([long * 1.001 + 0.01, long + 5, long * 3 + 1])
        rnd.shuffle(ds)
        for d in ds + [beyond]:
            r, err, _ = core.call(b.inverse_time_at_pos, d)
            x = {"e": "inverse", "i": i, "j": j, "d": flt(d), "t": [0, 0], "beyond": d == beyond, "refused": False, "err": "",
                 "want": [flt(given[d])] if d in given else []}
            if err:
                x["refused"] = err.startswith("ValueError")
                x["err"] = "" if d == beyond else "time at a distance: " + err[:60]
            else:
                try:
                    x["t"] = secs(r)
                except (Weird, TypeError, ValueError) as w:
                    x["err"] = "time at a distance: " + str(w)[:60]
            ev.append(x)
    return ev


def nm2(x, y):
    v = nms([float(x), float(y)])
    return v


def block_ends(sim):
    """Numbers of the last segments of the blocks."""
    n, ends = 0, []
    for b in sim.blocklist:
        n += len(b.get_segments())
        ends.append(n)
    return ends


def path_event(sim, folder, rnd, segs):
    colvar = rnd.choice(["Velocity", "Velocity", None])
    points = rnd.random() < 0.5
    kw = dict(filepath=False, colvar=colvar, show_points=points, show=True, scaled=rnd.random() < 0.5,
              colvar_spatial_resolution=rnd.choice([2, 5, 20]))
    if rnd.random() < 0.15:
        kw.update(filepath=folder / "p.png", dpi=40)
    e = {"e": "path", "ps": [], "marks": [], "points": points, "ends": block_ends(sim), "colored": False, "cols": [], "err": ""}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fig, err, _ = core.call(sim.plot_2d_position, seconds=60, **kw)
    try:
        if err:
            raise Weird("path plot: " + err)
        ax = fig.axes[0] if hasattr(fig, "axes") and isinstance(fig.axes, list) else fig
        from matplotlib.collections import LineCollection, PathCollection

        if ax.lines:
            e["ps"] = [nm2(x, y) for x, y in ax.lines[0].get_xydata()]
        else:
            col = [c for c in ax.collections if isinstance(c, LineCollection)]
            segs2 = col[0].get_segments()
            ps = []
            for sg in segs2:
                sg = [nm2(x, y) for x, y in sg]
                if ps and ps[-1] != sg[0]:
                    raise Weird("path plot: gap")
                ps += sg if not ps else sg[1:]
            e["ps"] = ps
            e["colored"] = True
            e["cols"] = flts(col[0].get_array())
        e["marks"] = [nm2(x, y) for c in ax.collections if isinstance(c, PathCollection) for x, y in c.get_offsets()]
    except (Weird, KeyError, IndexError, AttributeError, TypeError) as w:
        e["err"] = (str(w) or type(w).__name__)[:150]
    finally:
        import matplotlib.pyplot as plt

        plt.close("all")
    return e


# ------------------------------------------------------------------ histories of queries
def script_events(p, sim, folder, own, rnd):
    """Replay a history of MC_Query: instants of the model are mapped on n of the segments."""
    ev, n, k = [], 0, []
    for op, x in p["script"]:
        if op in ("start", "refresh"):
            if op == "refresh":
                q = {**p, "setup": {**p["setup"], **p["variants"][x]}}
                _, err, _ = core.call(lambda: sim.refresh(record.simulate(q, folder).states))
                if err:
                    raise Weird("refresh: " + err)
                ev.append(begin(p, segments(sim)))
            n, segs = x, segments(sim)
            k = [0] + sorted(rnd.randrange(len(segs)) for _ in range(n - 2)) + [len(segs) - 1] * (n > 1)
            continue
        s = segs[k[(x - 1) // 2 if x else 0]]
        t = 0.0 if x == 0 else s.t_end if x % 2 == 0 else s.t_begin + rnd.random() * (s.t_end - s.t_begin)
        if rnd.random() < 0.2:
            core.call(sim.get_width, t, 0.2, 1.75)
        ev += value_events(sim, [t], own, rnd, False)
    return ev


# ------------------------------------------------------------------ histories of questions in unit systems
INTO = {"SI": 1e3, "SImm": 1.0, "inch": 25.4}


def units_setup(p, folder, unit, form, rnd):
    """A setup whose initial position is given in a unit system; and this position as given."""
    s = record.make_setup({**p, "init": (0, 0, 0, 0)}, folder)
    u = unit if unit != "none" else "SImm"
    given = [round(x / INTO[u], 6 if u != "SI" else 9) for x in p["init"]]
    v = tuple(given)
    if form != "tuple":
        keys = list(zip("XYZE", given))
        if form == "mixed":
            rnd.shuffle(keys)
        v = dict(keys)
    a, kw = ((), {}) if unit == "none" else ((unit,), {}) if rnd.random() < 0.5 else ((), {"input_unit_system": unit})
    _, err, _ = core.call(s.set_initial_position, v, *a, **kw)
    if err:
        raise Weird("initial position: " + err)
    return s, u, given


def record_units(p, folder, **_):
    rnd = random.Random("u" + p["id"])
    gi, _ = record.mods()
    c = p["case"]
    own = c["own"] if c["own"] != "none" else "SImm"
    try:
        s, u, given = units_setup(p, folder, c["input"][0], c["input"][1], rnd)
        kw = {} if c["own"] == "none" else {"output_unit_system": c["own"]}
        f = record.write_program(p, folder)
        sim, err, _ = core.call(lambda: gi.simulation(gcode_path=f, initial_machine_setup=s, **kw), seconds=20)
        if err:
            raise Weird("exception " + err)
        segs = segments(sim)
        ev = [begin(p, segs), {"e": "start", "unit": u, "p": flts(given)}]
        for what, unit in c["hist"]:
            a = None if unit == "none" else unit
            e = {"e": "extent", "unit": a or own, "lo": [], "hi": [], "vmax": [], "tend": [], "err": ""}
            if what == "value":
                t = query_times(rnd, segs, 1)[-1]
                e = {"e": "value", "t": secs(t), "unit": a or own, "err": "", "v": [[0, 0]] * 4, "p": [[0, 0]] * 4}
                res, err, _ = core.call(sim.get_values, t, *([a] if a else []))
                if err is None:
                    e["v"], e["p"] = flts(res[0]), flts(res[1])
                else:
                    e["err"] = "query fails: " + err
            elif what == "series":
                e = series_event(sim, folder, own, rnd, segs, unit=a)
            elif what == "extent":
                res, err, _ = core.call(sim.extrusion_extent, *([a] if a else []))
                if err:
                    raise Weird("extent: " + err)
                e["lo"], e["hi"] = flts(res[0]), flts(res[1])
            elif what == "speed":
                res, err, _ = core.call(sim.extrusion_max_vel, *([a] if a else []))
                if err:
                    raise Weird("maximum velocity: " + err)
                e["vmax"] = [flt(res)]
            else:
                g = folder / "summary.yaml"
                _, err, _ = core.call(sim.save_summary, g)
                if err:
                    raise Weird("summary: " + err)
                d = yaml.safe_load(g.read_text())
                e["lo"], e["hi"] = flts([d[k + "_min"] for k in "xyz"]), flts([d[k + "_max"] for k in "xyz"])
                e["vmax"], e["tend"] = [flt(d["max_extrusion_travel_velocity"])], [secs(d["t_end"])]
            ev.append(e)
    except (Weird, TypeError, KeyError, IndexError) as w:
        return [{"e": "crash", "id": p["id"], "err": str(w)[:200]}]
    return ev


# ------------------------------------------------------------------ recording
def answers(what, p, sim, folder, own, rnd, n):
    ev, segs = [], segments(sim)
    for w in what:
        if w in ("values", "units"):
            if "script" in p:
                ev += script_events(p, sim, folder, own, rnd)
                continue
            ts = query_times(rnd, segs, n)
            ev += value_events(sim, ts, own, rnd, w == "units")
        if w == "width":
            ev += width_events(sim, query_times(rnd, segs, n), rnd)
        if w in ("series", "units"):
            ev.append(series_event(sim, folder, own, rnd, segs))
        if w == "box":
            for c, s, *want in p.get("boxes") or boxes(rnd, segs, 8):
                ev.append(box_event(sim, folder, c, s, rnd, *want))
        if w == "mesh":
            ev += mesh_events(sim, folder, rnd, segs)
        if w == "blocks":
            ev += block_events(sim, rnd, p.get("want"))
        if w == "plots":
            ev.append(curve_event(sim, folder, rnd, segs))
            ev.append(path_event(sim, folder, rnd, segs))
    return ev


def record_traj(p, folder, what=(), n=14):
    rnd = random.Random("t" + p["id"])
    u = rnd.choice([None, None, "SI", "SImm", "inch"])
    kw = {} if u is None else {"output_unit_system": u}
    own = u or "SImm"
    other = random.Random("o" + p["id"])
    if other.random() < 0.3 and "script" not in p:
        make = lambda: record.taken_over(p, folder, lambda s, d: answers(what, p, s, d, own, other, n), **kw)  # noqa: E731
    else:
        make = lambda: record.simulate(p, folder, **kw)  # noqa: E731
    sim, err, _ = core.call(make, seconds=40)
    if err is not None:
        return [{"e": "crash", "id": p["id"], "err": "exception " + err}]
    try:
        if "units" in what:  # the trajectory of the same program without a unit system
            ref, err, _ = core.call(record.simulate, p, folder, seconds=20)
            ev = [begin(p, segments(ref))]
        else:
            ev = [begin(p, segments(sim))]
        return ev + answers(what, p, sim, folder, own, rnd, n)
    except Weird as w:
        return [{"e": "crash", "id": p["id"], "err": str(w)}]


def check_traj(check, progs, what, sel=None, batch=3000, fn=None, **kw):
    byid = {p["id"]: p for p in progs}
    assert len(byid) == len(progs)
    for k in range(0, len(progs), batch):
        part = progs[k : k + batch]
        traces = programs.record_all(part, fn=fn or record_traj, what=what, **kw)
        bad, st = core.validate("Traj", traces, sel or [check.prop])
        check.traces(st, [programs.sample(p) for p in part[:2]] if k == 0 else [])
        tr = dict(traces)
        for clause, pid, where in bad:
            e = tr[pid][where] if 0 < where < len(tr[pid]) else tr[pid][-1]
            show = {a: b for a, b in e.items() if a not in ("segs",)}
            check.violation(clause, f"program {pid} ({byid[pid]['fw']}) event {where}: {str(show)[:300]}", dict(program=clean(byid[pid]), event=show))


def clean(p):
    return {k: v for k, v in p.items() if not callable(v)}


S = 12 if THOROUGH else 1


QUERY_INV = "AlwaysFound Unambiguous CursorInside Leaf"


def histories(check):
    depth = 5 if THOROUGH else 4
    cfg = (
        f"SPECIFICATION Spec\nCONSTANT Counts = {{2, 3}}\nCONSTANT Depth = {depth}\nCONSTANT Export = TRUE\n"
        + "".join(f"INVARIANT {x}\n" for x in QUERY_INV.split())
        + "CHECK_DEADLOCK FALSE\n"
    )
    ok, st, out = core.model_check("MC_Query", cfg)
    check.model("MC_Query", ok, st, QUERY_INV, out)
    hist = sorted(set(re.findall(r'<<"VF-HISTORY", "(.*?)">>', out)))
    assert len(hist) > 4000, len(hist)
    hist = [json.loads(h.replace('\\"', '"')) for h in hist]
    hist = random.Random(core.SEED).sample(hist, 8000 if THOROUGH else 900)
    progs = []
    for k, h in enumerate(hist):
        p = gen.program(core.SEED * 77 + k % 60, ("motion", "dwell", "corners")[k % 3])
        p["id"] = f"history-{k}"
        # other settings change the times and the number of segments
        p.update(script=h, variants={2: dict(p_acc=30, p_vel=9), 3: dict(p_acc=4000, p_vel=50)})
        progs.append(p)
    check_traj(check, progs, ["values"])


def run_values(check):
    histories(check)
    check_traj(check, programs.random_programs({"motion": 150, "rich": 150, "dwell": 80, "corners": 60}, S), ["values"])


UNITS_INV = "RightUnit Unchanged Inverse Different Leaf"


def run_units(check):
    cfg = "SPECIFICATION Spec\nCONSTANT Depth = 3\nCONSTANT Export = TRUE\nCHECK_DEADLOCK FALSE\n" + "".join(
        f"INVARIANT {x}\n" for x in UNITS_INV.split()
    )
    ok, st, out = core.model_check("MC_Units", cfg)
    check.model("MC_Units", ok, st, UNITS_INV, out)
    hist = sorted(set(re.findall(r'<<"VF-UNITS", "(.*?)">>', out)))
    assert len(hist) == 4 * 12 * 17**3, len(hist)
    progs = []
    for k, h in enumerate(random.Random(core.SEED).sample(hist, 9000 if THOROUGH else 700)):
        r = random.Random(f"{core.SEED}/{k}")
        p = gen.program(core.SEED * 91 + k % 90, ("motion", "rich", "corners")[k % 3])
        p["lines"] = ["G1 X%d Y%d" % (r.randint(-9, 9), r.randint(-9, 9)), "M83 G1 X2.5 E1.25", "M82"] + p["lines"]
        init = [r.choice([0, r.randint(-200, 200), round(r.uniform(-99, 99), 2)]) for _ in range(4)]
        p.update(id=f"units-{k}", case=json.loads(h.replace('\\"', '"')), init=init)
        progs.append(p)
    check_traj(check, progs, ["values"], fn=record_units)
    from . import reports

    reports.check_reports(check, programs.random_programs({"rich": 120, "motion": 80, "units": 40}, S), summary=True)
    check_traj(check, programs.random_programs({"motion": 150, "rich": 150, "units": 60}, S), ["units"], n=8)


def run_series(check):
    check_traj(check, flows(check, 1000, 10000), ["series"])
    check_traj(check, programs.random_programs({"motion": 200, "rich": 250, "modal": 100, "dwell": 50}, S), ["series"])


BOX_INV = "Alternate IntervalRight Convex Leaf"


def grid_program(k, c, r):
    """A path of the grid, laid into space: axes, scale and offset are chosen freely."""
    p = gen.base(None, str(k), "grid", r.choice(gen.FIRMWARES), p_acc=r.choice([50, 300, 2000]), jerk=r.choice([3, 10]))
    a, b, z = r.sample(range(3), 3)
    w, off, sign = r.choice([1, 4, 10]), [r.randint(-20, 20) for _ in range(3)], [r.choice([1, -1]) for _ in range(3)]

    def place(u, v):
        x = list(off)
        x[a] += sign[a] * w * u
        x[b] += sign[b] * w * v
        return x

    first, *rest = [place(*q) for q in c["path"]]
    p["init"] = tuple(first) + (0,)
    p["lines"] = [f"G1 X{x[0]} Y{x[1]} Z{x[2]}" + (" E%d" % r.randint(0, 3) if r.random() < 0.4 else "") + " F%d" % r.choice([600, 2400]) for x in rest]
    if r.random() < 0.5:
        p["lines"].insert(r.randint(0, len(rest)), r.choice(["G4 P20", "G1 E9", "M204 P700"]))
    lo, hi = place(*[x / 8 for x in c["box"]["lo"]]), place(*[x / 8 for x in c["box"]["hi"]])
    lo[z], hi[z] = off[z] - 1, off[z] + r.choice([2, 30])
    box = ([(x + y) / 2 for x, y in zip(lo, hi)], [abs(x - y) for x, y in zip(lo, hi)], (c["ins"], c["outs"]))
    p.update(id=f"grid-{k}", boxes=[box])
    return p


def grid(check):
    cfg = f"SPECIFICATION Spec\nCONSTANT Moves = {4 if THOROUGH else 3}\nCONSTANT Export = TRUE\nCHECK_DEADLOCK FALSE\n" + "".join(
        f"INVARIANT {x}\n" for x in BOX_INV.split()
    )
    ok, st, out = core.model_check("MC_Box", cfg)
    check.model("MC_Box", ok, st, BOX_INV, out)
    paths = sorted(set(re.findall(r'<<"VF-PATH", "(.*?)">>', out)))
    assert len(paths) == 5 * 9 * 8 ** (4 if THOROUGH else 3), len(paths)
    r = random.Random(core.SEED)
    progs = [
        grid_program(k, json.loads(h.replace('\\"', '"')), r)
        for k, h in enumerate(r.sample(paths, 20000 if THOROUGH else 1500))
    ]
    check_traj(check, progs, ["box"])


def run_boxes(check):
    grid(check)
    check_traj(check, programs.random_programs({"motion": 250, "modal": 150, "dwell": 60, "corners": 100}, S), ["box"])


FLOWS = ["G1 X10 E1", "G1 Y5", "G1 E2", "G1 E-1", "G1 X-5 E-.5", "G4 P20", "G1 Z2 Y1 E.5", "G1 X.5 Y-.5 E.1", "G92 E0", "M204 P100"]


def flows(check, quick, thorough):
    return motion.enum(check, "flows", FLOWS, 3, 4, quick_limit=quick, thorough_limit=thorough, prefix=["G91", "M83"], suffix=["G1 X3 E.3"], fws=motion.FW)


def run_mesh(check):
    check_traj(check, flows(check, 300, 3000), ["mesh"])
    check_traj(check, programs.random_programs({"motion": 60, "rich": 60, "modal": 40, "dwell": 20}, S), ["mesh"])


def run_plots(check):
    check_traj(check, flows(check, 200, 2000), ["plots"])
    check_traj(check, programs.random_programs({"motion": 60, "rich": 60, "dwell": 40, "corners": 30}, S), ["plots"])


def run_width(check):
    check_traj(check, flows(check, 600, 8000), ["width"])
    check_traj(check, programs.random_programs({"motion": 150, "rich": 150, "dwell": 50, "corners": 60}, S), ["width"])


BLOCK_INV = ("Inverse", "Symmetric", "Arrives", "Leaf")


def moves(check):
    """Moves from rest to rest with the times predicted for the quarters of their length."""
    feeds, accs, lengths = ((1, 3, 5, 10, 20, 35, 60, 90, 150, 240), (1, 5, 10, 50, 100, 300, 1000, 2000, 5000), (1, 2, 5, 10, 17, 25, 60, 100, 350, 1000, 4000)) if THOROUGH else (
        (1, 5, 20, 60, 150), (1, 10, 100, 1000, 5000), (1, 5, 10, 25, 100, 1000, 4000))
    cfg = (
        f"SPECIFICATION Spec\nCONSTANTS Feeds = {set(feeds)} Accs = {set(accs)} Lengths = {set(lengths)} Export = TRUE\n"
        + "".join(f"INVARIANT {x}\n" for x in BLOCK_INV)
        + "PROPERTY Grows\nPROPERTY NeverTooFast\nPROPERTY Reaches\nCHECK_DEADLOCK FALSE\n"
    )
    ok, st, out = core.model_check("MC_Block", cfg)
    check.model("MC_Block", ok, st, " ".join(BLOCK_INV[:3]) + " Grows NeverTooFast Reaches", out)
    ms = [json.loads(h.replace('\\"', '"')) for h in sorted(set(re.findall(r'<<"VF-MOVE", "(.*?)">>', out)))]
    assert len(ms) == len(feeds) * len(accs) * len(lengths), len(ms)
    val = lambda x: float(f"{x[0]}e{x[1]}")  # noqa: E731
    r = random.Random(core.SEED)
    progs = []
    for k in range(2000 if THOROUGH else 250):  # some of them after each other, separated by dwells
        part = r.sample(ms, 3)
        p = gen.base(None, str(k), "moves", r.choice(gen.FIRMWARES), jerk=1)
        p["lines"], p["want"] = ["G91", "M83"], []
        for m in part:
            x = val(m["l"])
            word = r.choice(["X%g", "Y-%g", "Z%g"]) % x
            if r.random() < 0.4:  # the same length on two axes
                word = r.choice(["X%g Y%g", "X-%g Z%g", "Y%g X-%g"]) % (round(x * 0.6, 6), round(x * 0.8, 6))
            p["lines"] += ["M204 P%g" % val(m["a"]), "G1 %s%s F%g" % (word, r.choice(["", " E.5"]), val(m["f"]) * 60), "G4 P%d" % r.choice([1, 20])]
            p["want"] += [[(x * n / 4, val(t)) for n, t in enumerate(m["ts"])], [(0, 0.0)]]
        p.update(id=f"moves-{k}", init=(0, 0, 0, 0))
        progs.append(p)
    check_traj(check, progs, ["blocks"])


def run_blocks(check):
    moves(check)
    check_traj(check, flows(check, 800, 8000), ["blocks"])
    check_traj(check, programs.random_programs({"motion": 150, "rich": 120, "modal": 60, "dwell": 60, "corners": 100}, S), ["blocks"])
