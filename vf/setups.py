"""Printer setups (C22) and the admission of simulations (C23); traces for module Setups."""

import json
import pathlib
import os
import random
import re

import yaml

from . import core, programs, record
from .core import THOROUGH, Weird, flt, flts

POS = ["X", "Y", "Z", "E"]


def text(v):
    return json.dumps(v, sort_keys=True)


def pairs(d):
    return [{"k": str(k), "v": text(v)} for k, v in d.items()]


def named(s):
    """A printer is named by a plain string everywhere; as value in a dictionary it is compared as such."""
    return s


class Recorder:
    def __init__(self, p, folder):
        self.gi, _ = record.mods()
        self.p, self.folder = p, folder
        # one file for all histories of this process, written anew: what an earlier one held must not matter
        self.file = core.scratch() / f"presets-{os.getpid()}.yaml"
        self.file.write_text(p["yaml"])
        self.ev = [{"e": "begin", "id": p["id"], "book": [{"name": n, "d": pairs(d)} for n, d in p["book"].items()]}]
        self.s = {}

    def new(self, i, printer, cue):
        kw = {}
        if printer is not None:
            kw["printer"] = printer
        if cue is not None:
            kw["layer_cue"] = cue
        obj, err, _ = core.call(self.gi.setup, presets_file=self.file, **kw)
        self.ev.append({"e": "new", "s": i, "printer": [] if printer is None else [printer],
                        "cue": [] if cue is None else [text(cue)], "rejected": err is not None})
        if err is None:
            self.s[i] = obj
        return err is None

    def select(self, i, name):
        _, err, _ = core.call(self.s[i].select_printer, name)
        self.ev.append({"e": "select", "s": i, "name": name, "rejected": err is not None})

    def prop(self, i, d):
        d = dict(d)
        _, err, _ = core.call(self.s[i].set_property, d)
        self.ev.append({"e": "property", "s": i, "d": pairs(d), "rejected": err is not None})
        d.clear()  # what the caller does with its dictionary afterwards is its own business
        d["p_vel"] = -1

    def position(self, i, form, keys, vals, unit):
        v = {"tuple": tuple, "list": list}.get(form, lambda x: dict(zip(keys, x)))(vals)
        kw = {} if unit is None else {"input_unit_system": unit}
        _, err, _ = core.call(self.s[i].set_initial_position, v, **kw)
        ok = [isinstance(x, (int, float)) for x in vals]
        self.ev.append({"e": "position", "s": i, "form": form, "keys": list(keys) if form == "dict" else [], "nums": ok,
                        "vals": [flt(x) if o else [0, 0] for x, o in zip(vals, ok)], "unit": unit or "SImm",
                        "rejected": err is not None})
        if isinstance(v, dict):
            for k in list(v):
                v[k] = 12345

    def get(self, i):
        d, err, _ = core.call(self.s[i].get_dict)
        e = {"e": "get", "s": i, "d": [], "pos": [], "rejected": err is not None}
        if err is None:
            e["d"] = [{"k": str(k), "v": v if k == "printer_name" else text(v)} for k, v in d.items() if k not in POS]
            e["pos"] = flts([d[k] for k in POS]) if all(k in d for k in POS) else []
            d["p_vel"] = -7  # the reader owns what it got
            d["stranger"] = 1
            d.pop("firmware", None)
            for k in POS:
                d[k] = 4711
        self.ev.append(e)


def record_setup(p, folder):
    rec = Recorder(p, folder)
    try:
        for op in p["ops"]:
            getattr(rec, op[0])(*op[1:])
    except Weird as w:
        return [{"e": "crash", "id": p["id"], "err": str(w)}]
    return rec.ev


# ------------------------------------------------------------------ enumerated by TLC
def cases(out):
    return [json.loads(json.loads(f'"{m.group(1)}"')) for m in re.finditer(r'<<"VF-CASE", "((?:[^"\\]|\\.)*)">>', out.replace("\n", ""))]


def enumerated(check):
    depth = 3
    ok, st, out = core.model_check(
        "MC_Config",
        f"SPECIFICATION Spec\nCONSTANT Depth = {depth}\nCONSTANT Export = TRUE\nINVARIANT LastWriteWins\n"
        "INVARIANT PositionLast\nINVARIANT Leaf\nPROPERTY Isolated\nCHECK_DEADLOCK FALSE\n",
    )
    check.model("MC_Config", ok, st, "LastWriteWins PositionLast Isolated", out)
    cs = sorted(cases(out), key=text)
    assert len(cs) == 4 * 20**depth, len(cs)
    if not THOROUGH:
        cs = random.Random(core.SEED).sample(cs, 2500)
    book = {"a": {"p_vel": "1", "firmware": "m"}, "b": {"p_vel": "2", "firmware": "k", "layer_cue": "L"}}
    res = []
    for n, c in enumerate(cs):
        ops = []
        for i, (printer, cue) in enumerate(c["first"], 1):
            ops.append(("new", i, printer[0] if printer else None, cue[0] if cue else None))
        for o in c["ops"]:
            if o["o"] == "select":
                ops.append(("select", o["s"], o["name"]))
            elif o["o"] == "property":
                ops.append(("prop", o["s"], {x["k"]: x["v"] for x in o["d"]}))
            else:
                ops.append(("position", o["s"], o["form"], POS[: o["n"]], [1, 2, 3, 4][: o["n"]], o["unit"]))
            ops += [("get", 1), ("get", 2)]
        res.append(dict(id=f"config-{n}", yaml=yaml.dump(book), book=book, ops=ops))
    return res


# ------------------------------------------------------------------ random histories
KEYS = ["p_vel", "p_acc", "jerk", "vX", "vY", "vZ", "vE", "firmware", "layer_cue", "nozzle_diam", "filament_diam", "odd key", "X", "printer_name"]


def value(r, k):
    if k == "firmware":
        return r.choice(["marlin_jd", "klipper", None, "MKA"])
    if k == "layer_cue":
        return r.choice(["LAYER", "; odd", ""])
    return r.choice([1, 2.5, 30, 0, "text", -4, 1000, True])


def random_book(r):
    book = {}
    for n in r.sample(["a4", "mini", "pro max", "x"], r.randint(1, 4)):
        book[n] = {k: value(r, k) for k in r.sample(KEYS[:11], r.randint(1, 11))}
        book[n].setdefault("firmware", "MKA")
    text_ = yaml.dump(book)
    names = list(book)
    if len(names) > 1 and r.random() < 0.3:  # several names for one set of presets
        a, b = names[:2]
        book[b] = dict(book[a])
        text_ = "".join(
            (f'"{n}": &base {json.dumps(book[n])}\n' if n == a else f'"{n}": *base\n' if n == b else f'"{n}": {json.dumps(book[n])}\n')
            for n in names
        )
    assert yaml.safe_load(text_) == book, text_
    return book, text_


def history(seed):
    r = random.Random(f"setup{seed}")
    book, text_ = random_book(r)
    names = list(book) + ["nobody"]
    ops, alive = [], []
    for i in range(1, r.choice([2, 3, 4])):
        printer = r.choice([None, None] + names)
        cue = r.choice([None, None, "CUE", ""])
        ops.append(("new", i, printer, cue))
        if printer in (None, *book):
            alive.append(i)
    if not alive:
        ops.append(("new", 9, None, None))
        alive.append(9)
    for _ in range(r.randint(2, 18)):
        i = r.choice(alive)
        x = r.random()
        if x < 0.28:
            ops.append(("select", i, r.choice(names)))
        elif x < 0.58:
            ops.append(("prop", i, {k: value(r, k) for k in r.sample(KEYS, r.choice([0, 1, 1, 2, 3]))}))
        elif x < 0.85:
            form = r.choice(["tuple", "tuple", "dict", "dict", "list"])
            keys = list(POS)
            r.shuffle(keys)
            vals = [r.choice([0, 1, -2.5, 10.125, r.randint(-100, 100)]) for _ in range(4)]
            y = r.random()
            if y < 0.12:
                n = r.choice([0, 1, 2, 3])
                keys, vals = keys[:n], vals[:n]
            elif y < 0.2:
                if form == "dict":
                    keys[r.randrange(4)] = r.choice(["x", "A", "e"])
                else:
                    vals.append(5)
            elif y < 0.28:
                vals[r.randrange(4)] = r.choice([None, [1]])
            ops.append(("position", i, form, keys, vals, r.choice([None, None, "SI", "SImm", "inch", "inch", "mm", "cm"])))
        else:
            ops.append(("get", i))
        if r.random() < 0.5:
            ops.append(("get", r.choice(alive)))
    ops += [("get", i) for i in alive]
    return dict(id=f"setup-{seed}", yaml=text_, book=book, ops=ops)


def check_traces(check, progs, fn, sel=None, batch=6000):
    byid = {p["id"]: p for p in progs}
    for k in range(0, len(progs), batch):
        part = progs[k : k + batch]
        traces = programs.record_all(part, fn=fn)
        bad, st = core.validate("Setups", traces, sel or [check.prop])
        check.traces(st, part[:2] if k == 0 else [])
        tr = dict(traces)
        for clause, pid, where in bad:
            e = tr[pid][where] if 0 < where < len(tr[pid]) else tr[pid][-1]
            check.violation(clause, f"{pid} event {where}: {text(e)[:300]}", dict(history=byid[pid], event=e))


def run_setups(check):
    check_traces(check, enumerated(check), record_setup)
    check_traces(check, [history(core.SEED * 100003 + i) for i in range(20000 if THOROUGH else 1500)], record_setup)


# ------------------------------------------------------------------ admission
PRESETS = dict(p_vel=35, p_acc=1000, jerk=10, vX=180, vY=180, vZ=30, vE=33, firmware="MKA", nozzle_diam=0.4,
               filament_diam=1.75, layer_cue="L")


OPTIONAL = {"nozzle_diam", "filament_diam", "layer_cue"}
REQUIRED = set(PRESETS) - OPTIONAL


def admission_cases(check):
    ok, st, out = core.model_check(
        "MC_Admission", "SPECIFICATION Spec\nCONSTANT Export = TRUE\nINVARIANT Decides\nINVARIANT Leaf\nCHECK_DEADLOCK FALSE\n"
    )
    check.model("MC_Admission", ok, st, "Decides", out)
    cs = sorted(cases(out), key=text)
    assert len(cs) > 70000
    r = random.Random(core.SEED)
    groups = {}
    for c in cs:
        s = c["setup"][0] if c["setup"] else None
        plain = c["unit"] in ("default", "SI") and s and s["sel"] == ["mine"] and c["machine"] in ([], ["mine"])
        flaw = s and (len(REQUIRED - set(s["keys"])), len(set(s["keys"]) - REQUIRED - OPTIONAL))
        key = text(c) if plain else text([c["machine"], c["unit"], s and s["sel"], flaw])
        groups.setdefault(key, []).append(c)
    n = 40 if THOROUGH else 2
    res = []
    for g in groups.values():
        res += r.sample(g, min(n, len(g)))
    return res


NAMES = [("mine", "other"), ("mk3_mini", "mk3"), ("mk3", "mk3_mini"), ("mini", "mk3_mini"), ("mk3_mini", "mini"), ("Mine", "mine")]


def record_admission(p, folder):
    gi, _ = record.mods()
    c = p["case"]
    prog = folder / "p.gcode"
    prog.write_text("G1 X10 F1200\n")
    defaults = p["defaults"]
    kw, setup = {}, []
    r = random.Random(p["id"])
    mine, other = r.choice(NAMES)
    name = {"known": defaults[0], "mine": mine, "unknown": r.choice(["nobody", other, other])}  # other: in the file, but not selected
    if c["setup"]:
        keys = [k for k in c["setup"][0]["keys"]]
        d = {k: PRESETS.get(k, 1) for k in keys}
        sel = [name[x] for x in c["setup"][0]["sel"]]
        f = folder / "presets.yaml"
        (folder / "presets.yaml").write_text(yaml.dump({n: d for n in [mine, other, defaults[0]]}))
        s = gi.setup(presets_file=f)
        if sel:
            s.select_printer(sel[0])
        kw["initial_machine_setup"] = s
        setup = [{"sel": sel, "keys": keys + POS + ["printer_name"]}]
    machine = [name[x] for x in c["machine"]]
    if machine:
        kw["machine_name"] = machine[0]
    if c["unit"] != "default":
        kw["output_unit_system"] = c["unit"]
    before = sorted(folder.iterdir())
    _, err, _ = core.call(gi.simulation, gcode_path=prog, **kw)
    files = len(set(folder.iterdir()) - set(before))
    return [
        {"e": "begin", "id": p["id"], "book": []},
        {"e": "admit", "setup": setup, "machine": machine, "unit": "SImm" if c["unit"] == "default" else c["unit"],
         "defaults": defaults, "result": "ok" if err is None else err.split(":")[0], "files": files},
    ]


def default_printers():
    core.load_repo()
    import pyGCodeDecode

    f = pathlib.Path(pyGCodeDecode.__file__).parent / "data" / "default_printer_presets.yaml"
    return sorted(yaml.safe_load(f.read_text()))


def run_admission(check):
    cs = admission_cases(check)
    names = default_printers()
    r = random.Random(core.SEED)
    progs = []
    for n, c in enumerate(cs):
        r.shuffle(names)
        progs.append(dict(id=f"admission-{n}", case=c, defaults=list(names)))
    check_traces(check, progs, record_admission)
