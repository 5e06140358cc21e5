"""The plot command (C28); traces for module Commands."""

import builtins
import contextlib
import hashlib
import json
import os
import pathlib
import random
import shutil
import sys
import tempfile
from unittest import mock

import yaml

from . import core, programs, record, setups, traj
from .core import THOROUGH

NAMES = ["given/part.v2.gcode", "cwd/one.gcode", "cwd/t w o.gcode"]
CUES = [None, "LAYER", "absent"]


def gcode(n):
    f = [1800, 2400, 3000][n]
    lines = ["G90", "M83", f"G1 X10 Y{n} Z0.2 F{f}", "G1 X20 E1.5", ";LAYER", "G1 Z0.4", f"G1 X{5 - n} Y8 E2", "G4 P100",
             "G1 E-1", "; LAYER", "G1 X0 Y0", "G1 X7 Y7 E0.75", "G28"]
    return "\n".join(lines[n:] if n == 2 else lines) + "\n"


P = dict(p_acc=1000, jerk=10, vX=180, vY=180, vZ=30, vE=33)
MINE = dict(P, p_vel=20, p_acc=700, firmware="marlin_jd")
ANISO = dict(P, p_vel=25, p_acc=300, firmware="klipper")
PRESETS = {"p.yaml": {"anisoprint_a4": ANISO, "mine": MINE}, "bare.yaml": {"mine": dict(MINE, jerk=4)}}


def build(root):
    """The files every world has in common."""
    (root / "given").mkdir()
    (root / "cwd").mkdir()
    (root / "else").mkdir()
    (root / "else" / "p.txt").write_text("keep")


def digest(f, root=None, gfile=None):
    """Content of a written file, up to the formatting of numbers and the path of the program."""
    try:
        if f.name.endswith("_summary.yaml"):
            d = yaml.safe_load(f.read_text())
            name = pathlib.Path(d.pop("filename"))
            if gfile is not None and (root / "cwd" / name).resolve() != gfile.resolve():
                return "summary of " + str(name)
            x = sorted((k, round(float(v), 9)) for k, v in d.items())
        elif f.suffix == ".vtk":
            import pyvista as pv

            x = json.dumps(traj.pieces(pv.read(f)))
        else:
            x = f.read_text()
    except Exception as e:  # noqa: B902
        return "unreadable: " + str(e)[:80]
    return hashlib.sha1(repr(x).encode()).hexdigest()[:12]


def references(_p, folder):
    """What the same simulation gives when run from Python."""
    gi, _ = record.mods()
    from pyGCodeDecode import tools

    import pyGCodeDecode

    default = pathlib.Path(pyGCodeDecode.__file__).parent / "data" / "default_printer_presets.yaml"
    res = []
    for n, g in enumerate(NAMES):
        f = folder / f"g{n}.gcode"
        f.write_text(gcode(n))
        for pname in ["", "p.yaml", "bare.yaml"]:
            pf = default
            if pname:
                pf = folder / pname
                pf.write_text(yaml.dump(PRESETS[pname]))
            for printer in yaml.safe_load(pf.read_text()):
                for cue in CUES:
                    out = folder / "out"
                    out.mkdir()

                    def run():
                        s = gi.setup(presets_file=pf, printer=printer, layer_cue=cue)
                        sim = gi.simulation(gcode_path=f, initial_machine_setup=s)
                        sim.save_summary(filepath=out / "_summary.yaml")
                        if cue is not None:
                            tools.save_layer_metrics(sim, filepath=out / "_layer_metrics.csv", locale="C", delimiter=",")
                        sim.plot_3d(extrusion_only=True, screenshot_path=out / "x.png", vtk_path=out / "m.vtk")

                    _, err, _ = core.call(run, seconds=60)
                    if err:
                        return [{"e": "crash", "id": "references", "err": "the same simulation from Python fails: " + err}]
                    content = {"_summary.yaml": digest(out / "_summary.yaml"), ".vtk": digest(out / "m.vtk")}
                    if cue is not None:
                        content["_layer_metrics.csv"] = digest(out / "_layer_metrics.csv")
                    shutil.rmtree(out)
                    res.append({"gcode": g, "presets": pname, "printer": printer, "cue": [] if cue is None else [cue], "content": content})
    return [{"e": "refs", "refs": res}]


def snapshot(root):
    files = {str(f.relative_to(root)): f.read_bytes() for f in root.rglob("*") if f.is_file()}
    dirs = {str(f.relative_to(root)) for f in root.rglob("*") if f.is_dir()}
    return files, dirs


class Asked(Exception):
    """The user has nothing more to say."""


def record_command(p, folder):
    record.mods()
    import locale

    from pyGCodeDecode import cli

    w = p["w"]
    rnd = random.Random(p["id"])
    root = folder / "world"
    root.mkdir()
    build(root)
    cwd = root / "cwd"
    for n in w["cwd"]:
        (root / n).write_text(gcode(NAMES.index(n)))
    others = ["readme.txt", "one.gcode.bak", "gcode", "old.stl", "x.gco", "sub/nested.gcode", "sub/one.gcode", "../up.gcode"]
    for n in rnd.sample(others, 3):
        (cwd / n).parent.mkdir(exist_ok=True)
        (cwd / n).write_text("G1 X5 E1\n")

    def place(x, text):
        f = root / x["name"] if "/" in x["name"] else root / "else" / x["name"]
        if x["kind"] == "file":
            f.write_text(text)
        elif x["kind"] == "folder":
            f.mkdir()
        return f

    def arg(f):
        return str(f) if rnd.random() < 0.5 else os.path.relpath(f, cwd)

    opts = []
    if w["gcode"]:
        opts.append([rnd.choice(["-g", "--gcode"]), arg(place(w["gcode"][0], gcode(NAMES.index(w["gcode"][0]["name"]))))])
    elif rnd.random() < 0.2:
        opts.append(["-g"])
    if w["presets"]:
        x = w["presets"][0]
        opts.append([rnd.choice(["-p", "--presets"]), arg(place(x, yaml.dump(PRESETS[x["name"]])))])
    if w["printer"]:
        opts.append([rnd.choice(["-pn", "--printer_name"]), w["printer"][0]])
    if w["cue"]:
        opts.append([rnd.choice(["-lc", "--layer_cue"]), w["cue"][0]])
    if w["out"]:
        if w["out"][0] == "old":
            (root / "old").mkdir()
            (root / "old" / "kept.txt").write_text("kept")
            if rnd.random() < 0.5:
                for n in NAMES:
                    (root / "old" / (pathlib.Path(n).stem + "_summary.yaml")).write_text("old: 1")
        opts.append([rnd.choice(["-o", "--out_dir"]), arg(root / w["out"][0])])
    rnd.shuffle(opts)
    opts.sort(key=lambda o: len(o) == 1)  # a bare -g must not swallow another word
    clear = ("y", "yes", "n", "no")
    spell = {x: ("".join(rnd.choice([c, c.upper()]) for c in x.lower()) if x.lower() in clear else x) for x in w["answers"]}
    w = dict(w, answers=[spell[x] for x in w["answers"]])
    answers, asked = list(w["answers"]), [0]

    def answer(*_):
        asked[0] += 1
        if not answers:
            raise Asked("asked once too often")
        return answers.pop(0)

    real = locale.setlocale

    def setlocale(category, loc=None):
        try:
            return real(category, loc)
        except locale.Error:
            return "C"

    before, dirs = snapshot(root)
    here = os.getcwd()
    try:
        os.chdir(cwd)
        with mock.patch.object(sys, "argv", ["pygcd", "plot"] + [x for o in opts for x in o]), mock.patch.object(
            builtins, "input", answer
        ), mock.patch.object(locale, "setlocale", setlocale), contextlib.redirect_stderr(open(os.devnull, "w")):
            _, err, _ = core.call(cli._main, seconds=120)
    finally:
        os.chdir(here)
    after, dirs2 = snapshot(root)
    new = [n for n in after if n not in before or (n in before and after[n] != before[n] and n.startswith("old/") and n != "old/kept.txt")]
    touched = sorted(n for n in before if n not in new and after.get(n) != before[n])
    g = w["gcode"][0]["name"] if w["gcode"] else (w["cwd"][0] if len(w["cwd"]) == 1 else "")
    files = [{"name": n, "content": digest(root / n, root, root / g if g else None)} for n in sorted(new)]
    return [
        {"e": "run", "id": p["id"], "w": w, "defaults": p["defaults"], "stem": pathlib.Path(g).stem, "done": err is None,
         "err": "" if err is None or err.startswith("SystemExit") else err[:80], "files": files,
         "folders": len(dirs2 - dirs), "touched": touched, "asked": asked[0]}
    ]


def run(check):
    import pyvista as pv

    record.mods()
    pv.OFF_SCREEN = True
    ok, st, out = core.model_check(
        "MC_Cli",
        "SPECIFICATION Spec\nCONSTANT Export = TRUE\nINVARIANT Outcome\nINVARIANT NothingBeforeSuccess\nINVARIANT Leaf\nCHECK_DEADLOCK FALSE\n",
    )
    check.model("MC_Cli", ok, st, "Outcome NothingBeforeSuccess", out)
    ws = sorted(setups.cases(out), key=setups.text)
    assert len(ws) == 5040, len(ws)
    r = random.Random(core.SEED)
    if not THOROUGH:  # every kind of stop, and mostly worlds that run
        good = [w for w in ws if (w["gcode"] and w["gcode"][0]["kind"] == "file" or not w["gcode"] and len(w["cwd"]) == 1)
                and (not w["presets"] or w["presets"][0]["kind"] == "file")]
        rest = [w for w in ws if w not in good]
        ws = r.sample(good, 500) + r.sample(rest, 250)
    defaults = setups.default_printers()
    progs = [dict(id=f"command-{n}", w=w, defaults=defaults) for n, w in enumerate(ws)]
    byid = {p["id"]: p for p in progs}
    refs = programs.record_all([dict(id="references")], fn=references)[0][1]
    if refs[0]["e"] == "crash":
        check.violation("C28.content", refs[0]["err"], {})
        return
    traces = programs.record_all(progs, fn=record_command)
    tr = dict(traces)
    size = 40
    bundles = [(f"bundle-{k}", refs + [e for _, es in traces[k : k + size] for e in es]) for k in range(0, len(traces), size)]
    bad, st = core.validate("Commands", bundles, ["C28"])
    st["traces"] = len(traces)
    check.traces(st, [p["w"] for p in progs[:3]])
    for clause, pid, _ in bad:
        check.violation(clause, f"{pid}: {setups.text(tr.get(pid))[:500]}", dict(world=byid.get(pid), run=tr.get(pid)))
