"""Run programs through the real code and record what happened as events of the trace specification."""

import pathlib
import re

import yaml

from . import core
from .core import Weird, codes, flt, flts, nm, nms, secs

_mods = {}


def mods():
    if not _mods:
        core.load_repo()
        from pyGCodeDecode import gcode_interpreter, state_generator

        _mods.update(gi=gcode_interpreter, sg=state_generator)
    return _mods["gi"], _mods["sg"]


def write_program(p, folder, name="prog.gcode"):
    f = pathlib.Path(folder) / name
    text = p["newline"].join(p["lines"])
    if p["final"]:
        text += p["newline"]
    f.write_bytes(text.encode())
    return f


def file_lines(p):
    """The lines a file of this program has (a last line that is empty is none)."""
    lines = list(p["lines"])
    if not p["final"]:
        while lines and lines[-1] == "":
            lines.pop()
            break
    return lines


def make_setup(p, folder, name="presets.yaml"):
    gi, _ = mods()
    d = dict(p["setup"])
    d["firmware"] = p["fw"]
    f = pathlib.Path(folder) / name
    f.write_text(yaml.dump({"machine": d}))
    s = gi.setup(presets_file=f, printer="machine", layer_cue=p["cue"])
    if any(p["init"]):
        s.set_initial_position(tuple(p["init"]))
    return s


def simulate(p, folder, **kw):
    gi, _ = mods()
    return gi.simulation(gcode_path=write_program(p, folder), initial_machine_setup=make_setup(p, folder), **kw)


SWAP = str.maketrans("XY", "YX")


def mirrored(p):
    """The same motion with X and Y exchanged: as many lines, blocks and seconds, elsewhere."""

    def line(x):
        code, sep, com = x.partition(";")
        return x if "M205" in code or "M117" in code else code.translate(SWAP) + sep + com

    st = p["setup"]
    a, b, *c = p["init"]
    return dict(p, lines=[line(x) for x in p["lines"]], init=(b, a, *c), setup=dict(st, vX=st["vY"], vY=st["vX"]))


def taken_over(p, folder, ask, **kw):
    """A simulation of p which simulated something else before, was asked about that, and took over the states of p."""
    d = pathlib.Path(folder) / "before"
    d.mkdir()
    sim = simulate(mirrored(p), d, **kw)
    try:
        ask(sim, d)
    except Exception:  # noqa: B902  what it says about something else is not judged here
        pass
    sim.refresh(new_state_list=simulate(p, folder, **kw).states)
    return sim


def observe(st):
    """Observation of one state."""
    ps = st.state_p_settings
    return {
        "pos": nms(st.state_position.get_vec(withExtrusion=True)),
        "F": flt(ps.speed * 60),
        "acc": flt(ps.p_acc),
        "jerk": flt(ps.jerk),
        "vmax": flts([ps.vX, ps.vY, ps.vZ, ps.vE]),
        "layer": [] if st.layer is None else [int(st.layer)],
        "com": [] if st.comment is None else [codes(st.comment)],
        "pause": [] if st.pause is None else [flt(st.pause)],
        "num": st.line_number if isinstance(st.line_number, int) else -1,
    }


def observe_segment(s, fractions):
    dt = s.t_end - s.t_begin
    q = []
    for f in fractions:
        t = s.t_begin + f * dt
        if s.t_begin <= t <= s.t_end:
            q.append(
                {
                    "tau": flt(t - s.t_begin),
                    "v": flts(s.get_velocity(t).get_vec(withExtrusion=True)),
                    "p": nms(s.get_position(t).get_vec(withExtrusion=True)),
                }
            )
    return {
        "tb": secs(s.t_begin),
        "te": secs(s.t_end),
        "dt": flt(dt),
        "pb": nms(s.pos_begin.get_vec(withExtrusion=True)),
        "pe": nms(s.pos_end.get_vec(withExtrusion=True)),
        "vb": flts(s.vel_begin.get_vec(withExtrusion=True)),
        "ve": flts(s.vel_end.get_vec(withExtrusion=True)),
        "q": q,
    }


def begin_event(p):
    st = p["setup"]
    return {
        "e": "begin",
        "id": p["id"],
        "init": nms(p["init"]),
        "set": {
            "F": flt(st["p_vel"]),
            "acc": flt(st["p_acc"]),
            "jerk": flt(st["jerk"]),
            "vmax": flts([st["vX"], st["vY"], st["vZ"], st["vE"]]),
        },
        "fw": p["fw"] or "none",
        "hascue": p["cue"] is not None,
        "cue": codes(p["cue"] or ""),
    }


FRACTIONS = [[0.0, 0.37, 1.0], [0.25], [0.8], [0.5, 0.99], []]


def record(p, folder, instants=True):
    """Events of one program."""
    gi, sg = mods()
    ev = [begin_event(p)]

    def run():
        sim = simulate(p, folder)
        rep = sg.check_for_unsupported_commands(
            line_dict_list=sg.read_gcode_to_dict_list(pathlib.Path(folder) / "prog.gcode")
        )
        return sim, rep

    res, err, out = core.call(run, seconds=20)
    if err is not None:
        return ev + [{"e": "crash", "id": p["id"], "err": "exception " + err}]
    sim, rep = res
    try:
        return ev + events_of(p, sim, rep, out, instants)
    except Weird as w:
        return ev + [{"e": "crash", "id": p["id"], "err": str(w)}]


def events_of(p, sim, rep, out, instants=True):
    ev = []
    lines = file_lines(p)
    states = list(sim.states)
    blocks = {}
    index = {id(s): i for i, s in enumerate(states)}
    stray = 0
    last = 0
    for b in sim.blocklist:
        i = index.get(id(b.state_B))
        if i is None or i < last or not b.get_segments() or b.state_A is not states[i - 1]:
            stray += 1
            continue
        last = i
        blocks.setdefault(i, []).append(b)
    n = 0
    for i, text in enumerate(lines):
        k = i + 1
        if k >= len(states):
            break
        ob = observe(states[k])
        ob["prev"] = states[k].prev_state is states[k - 1]
        ob["next"] = states[k].next_state is (states[k + 1] if k + 1 < len(states) else None)
        bs = []
        for b in blocks.get(k, []):
            segs = []
            for s in b.get_segments():
                n += 1
                segs.append(observe_segment(s, FRACTIONS[n % 5] if instants else []))
            bs.append({"s": segs})
        ev.append({"e": "line", "t": codes(text), "o": ob, "b": bs})
    o0 = observe(states[0])
    o0["prev"] = states[0].prev_state is None
    o0["next"] = len(states) > 1 and states[0].next_state is states[1]
    m = re.search(r"printer settings is (-?[\d.]+) seconds", out)
    ev.append(
        {
            "e": "end",
            "states": len(states),
            "rep": [[ord(k[0]), int(k[1:]), v] for k, v in rep.items()],
            "said": sorted([ord(c[0]), int(c[1:]), int(k)] for c, k in set(re.findall(r"(?<![\w/.])([GM]\d+)\b\D+?(\d+)", out))),
            "kinds": [int(x) for x in re.findall(r"(\d+)[^\n\d]*unsupported[^\n]*found", out)],
            "stray": stray,
            "tend": secs(sim.blocklist[-1].get_segments()[-1].t_end),
            "printed": [flt(float(m.group(1)))] if m else [],
            "warn": out.count("does not adhere"),
            "o0": o0,
        }
    )
    return ev


STALE = {"yaml": "stale: [%s]\n" % ", ".join(["77777.5"] * 60) + "".join(f"stale_{k}: {k}\n" for k in range(60)), "rows": "91919.5,7,7,7,1\n" * 400}


def stale(f, kind, rnd):
    """Now and then the file to be written exists already, with other and more contents."""
    if rnd.random() < 0.4:
        f.parent.mkdir(parents=True, exist_ok=True)
        f.write_text(STALE[kind])
    return f
