"""Calculations with vectors (C31) and segments built by hand (C32); traces for module Vectors."""

import json
import math
import random
import re

import numpy as np

from . import core, programs, record
from .core import THOROUGH, Weird, flt, flts

ZERO = [0, 0]
V0 = [ZERO] * 4


def utils():
    record.mods()
    from pyGCodeDecode import utils as u

    return u


def num(f):
    return float(f"{f[0]}e{f[1]}")


def whole(x):
    """An int where the number is one, as users write them."""
    return int(x) if x == int(x) and abs(x) < 1e9 else x


def four(o):
    return flts([o.x, o.y, o.z, o.e])


def kind(o):
    return type(o).__name__


def form(u, rnd, k, v):
    """The operand v as one of the documented kinds of operands."""
    f = rnd.choice(["same", "same", "list", "tuple", "array"])
    if f == "same":
        return getattr(u, k)(*v)
    return {"list": list, "tuple": tuple, "array": np.array}[f](v)


def build(u, rnd, k, v):
    c = getattr(u, k)
    return rnd.choice([lambda: c(*v), lambda: c(list(v)), lambda: c(tuple(v)), lambda: c(np.array(v, dtype=float))])()


def ask(fn, *args):
    return core.call(fn, *args, seconds=10)[:2]


def components(b):
    if hasattr(b, "get_vec"):
        return four(b)
    return flts(b)


def see_event(o, i, rnd, u):
    e = {"e": "see", "i": i, "err": "", "v3": [], "v4": [], "n3": ZERO, "n4": ZERO, "d3": [], "d4": [], "nz": False, "ex": False,
         "lim": [], "limits": V0}
    try:
        e["v3"], e["v4"] = flts(o.get_vec()), flts(o.get_vec(withExtrusion=True))
        e["n3"], e["n4"] = flt(o.get_norm()), flt(o.get_norm(withExtrusion=True))
        if kind(o) == "velocity":
            for k, x in (("d3", o.get_norm_dir()), ("d4", o.get_norm_dir(withExtrusion=True))):
                e[k] = [] if x is None else flts(x)
            e["nz"], e["ex"] = bool(o.not_zero()), bool(o.is_extruding())
            lim = [rnd.choice([1, 20, 33.3, 180]) for _ in range(4)]
            from pyGCodeDecode.state import state

            s = state.p_settings(p_acc=1000, jerk=10, vX=lim[0], vY=lim[1], vZ=lim[2], vE=lim[3], speed=35)
            e["limits"] = flts(lim)
            e["lim"] = four(o.avoid_overspeed(s))
    except Exception as x:  # noqa: B902
        e["err"] = "question fails: " + type(x).__name__ + " " + str(x)[:80]
    return e


def pair_event(o, i, v, rnd, u):
    k = kind(o)
    b = form(u, rnd, k, v)
    e = {"e": "pair", "i": i, "err": "", "b": components(b), "eq": "", "ne": "", "travel": False, "extr": False, "either": False,
         "d3": ZERO, "d4": ZERO, "after": V0,
         "sure": all(x == y or abs(x - y) > 1e-6 * max(abs(x), abs(y)) for x, y in zip(o.get_vec(withExtrusion=True), v))}
    try:
        eq, ne = o == b, o != b
        e["eq"], e["ne"] = str(eq), str(ne)
        if k == "position":
            e["travel"] = bool(o.is_travel(b))
            e["extr"] = bool(o.is_extruding(b))
            e["either"] = bool(o.is_extruding(b, ignore_retract=False))
            e["d3"], e["d4"] = flt(o.get_t_distance(b)), flt(o.get_t_distance(b, withExtrusion=True))
            if all(x == 0 for x in v):
                e["d3"], e["d4"] = flt(o.get_t_distance()), flt(o.get_t_distance(withExtrusion=True))
        e["after"] = components(b)
    except Exception as x:  # noqa: B902
        e["err"] = "question fails: " + type(x).__name__ + " " + str(x)[:80]
    return e


NO_VECTOR = [[1, 2, 3], (1, 2, 3, 4, 5), [], "abcd", 5, 2.5, None, {"x": 1}, np.zeros(3)]
NO_NUMBER = ["2", None, [1, 2, 3, 4], (1,), {}]


def refuse_events(o, i, rnd, u):
    b, c = rnd.choice(NO_VECTOR), rnd.choice(NO_NUMBER)
    ev = []

    def put(what, want, fn, *args):
        err = ask(fn, *args)[1]
        ev.append({"e": "refuse", "what": what, "want": want, "err": (err or "").split(":")[0]})

    put("adding " + str(type(b).__name__), "ValueError", lambda: o + b)
    put("subtracting " + str(type(b).__name__), "ValueError", lambda: o - b)
    put("multiplying by " + str(type(c).__name__), "TypeError", lambda: o * c)
    put("dividing by " + str(type(c).__name__), "TypeError", lambda: o / c)
    x = rnd.choice([(1, 2, 3), (1, 2, 3, 4, 5), ([1, 2],), (), ((1, 2, 3, 4, 5),)])
    put("creation from %d values" % len(x), "ValueError", lambda: type(o)(*x))
    return ev


def record_calculation(p, _folder):
    u = utils()
    rnd = random.Random(p["id"])
    k = p["kind"]
    v = p["steps"][0]["b"]
    ev = [{"e": "new", "id": p["id"], "kind": k, "v": flts(v), "out": V0, "err": ""}]
    o, err = ask(build, u, rnd, k, v)
    if err:
        ev[0]["err"] = ": " + err
        return ev
    ev[0]["out"] = four(o)
    regs = [o]
    for n, s in enumerate(p["steps"][1:]):
        i = len(regs) if p["chain"] else rnd.randint(1, len(regs))
        a = regs[i - 1]
        b, c = form(u, rnd, k, s["b"]), s["c"]
        if rnd.random() < 0.2:
            c = np.float64(c)
        fn = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * c, "div": lambda: a / c}[s["op"]]
        r, err = ask(fn)
        e = {"e": "op", "op": s["op"], "i": i, "b": flts(s["b"]), "c": flt(s["c"]), "err": "", "kind": "", "out": V0}
        ev.append(e)
        if err:
            e["err"] = ": " + err
            return ev
        try:
            e["kind"], e["out"] = kind(r), four(r)
        except (Weird, AttributeError) as w:
            e["err"] = ": " + str(w)[:80]
            return ev
        regs.append(r)
    for i, o in enumerate(regs, 1):
        if i == len(regs) or rnd.random() < 0.3:
            ev.append(see_event(o, i, rnd, u))
            others = [[float(x) for x in q.get_vec(withExtrusion=True)] for q in (rnd.choice(regs), o)]
            near = list(others[1])
            near[rnd.randrange(4)] += rnd.choice([1, -1]) * rnd.choice([0.25, 3, 40])
            for w in [rnd.choice(others), near, [0, 0, 0, 0]]:
                ev.append(pair_event(o, i, [whole(x) for x in w] if rnd.random() < 0.3 else w, rnd, u))
    ev += refuse_events(regs[-1], len(regs), rnd, u)
    ev.append({"e": "again", "vs": [four(r) for r in regs]})
    return ev


def random_number(r):
    x = r.random()
    if x < 0.25:
        return 0.0
    if x < 0.5:
        return float(r.randint(-300, 300))
    if x < 0.9:
        return round(r.uniform(-400, 400), r.choice([1, 2, 3, 5]))
    return round(r.uniform(-1, 1) * 10 ** r.randint(-4, 5), 8)


def random_calculation(seed):
    r = random.Random(seed)
    steps = [{"op": "new", "b": [random_number(r) for _ in range(4)], "c": 1}]
    for _ in range(r.randint(1, 6)):
        op = r.choice(["add", "sub", "mul", "div"])
        c = r.choice([2, -3, 0.5, 7, -1, 1.25, 0.001, 60, 1e-6, 1e5, round(r.uniform(-9, 9), 3) or 1])
        steps.append({"op": op, "b": [random_number(r) for _ in range(4)], "c": c})
    for s in steps:
        if r.random() < 0.3:
            s["b"] = [whole(x) for x in s["b"]]
        if r.random() < 0.1:
            s["b"] = [0, 0, 0, s["b"][3]]
    return dict(id=f"random-{seed}", kind=r.choice(["position", "velocity", "position", "velocity", "vector_4D"]), steps=steps,
                chain=r.random() < 0.5)


def exported(out, tag):
    return [json.loads(json.loads(f'"{m}"')) for m in re.findall(rf'<<"{tag}", "((?:[^"\\]|\\.)*)">>', out.replace("\n", ""))]


def judge(check, progs, traces, size):
    byid = {p["id"]: p for p in progs}
    tr = dict(traces)
    bundles = [(f"bundle-{k}", [e for _, es in traces[k : k + size] for e in es]) for k in range(0, len(traces), size)]
    bad, st = core.validate("Vectors", bundles, [check.prop])
    st["traces"] = len(traces)
    check.traces(st, [json.loads(json.dumps(p, default=str)) for p in progs[:3]])
    for clause, pid, i in bad:
        check.violation(clause, f"{pid} value {i}: {json.dumps(byid.get(pid), default=str)[:400]}", dict(input=byid.get(pid), run=tr.get(pid)))


def run_vectors(check):
    depth = 4 if THOROUGH else 3
    ok, st, out = core.model_check(
        "MC_Vec",
        f"SPECIFICATION Spec\nCONSTANTS Depth = {depth} Export = TRUE\nPROPERTY Laws\n"
        "INVARIANT Unit\nINVARIANT Nothing\nINVARIANT Within\nINVARIANT Leaf\nCHECK_DEADLOCK FALSE\n",
    )
    check.model("MC_Vec", ok, st, "Laws (Undone Triangle Direction) Unit Nothing Within", out)
    hs = exported(out, "VF-CALC")
    assert len(hs) == 6 * 21**depth, len(hs)
    hs.sort(key=json.dumps)
    r = random.Random(core.SEED)
    hs = r.sample(hs, 20000 if THOROUGH else 2500)
    progs = []
    for n, h in enumerate(hs):
        steps = [{"op": s["op"], "b": [whole(num(x)) for x in s["b"]], "c": whole(num(s["c"]))} for s in h]
        progs.append(dict(id=f"calc-{n}", kind=["position", "velocity"][n % 2], steps=steps, chain=True))
    progs += [random_calculation(core.SEED * 1000003 + i) for i in range(20000 if THOROUGH else 2500)]
    judge(check, progs, programs.record_all(progs, fn=record_calculation), 50)


# ------------------------------------------------------------------ segments
def seg_record(s):
    def ticks(t):
        n = float(t) * 1024
        if not math.isfinite(n) or abs(n) > 1e8 or abs(n - round(n)) > 1e-6:
            raise Weird(f"odd time: {t!r}")
        return round(n)

    return {"tb": ticks(s.t_begin), "te": ticks(s.t_end), "pb": four(s.pos_begin), "vb": four(s.vel_begin),
            "pe": four(s.pos_end), "ve": four(s.vel_end)}


def record_segment(p, _folder):
    u = utils()
    from pyGCodeDecode.state import state

    rnd = random.Random(p["id"])
    q = p["s"]
    if "initial" in p:
        x = p["initial"]
        e = {"e": "initial", "id": p["id"], "p": flts(x or [0, 0, 0, 0]), "s": dict(tb=0, te=0, pb=V0, vb=V0, pe=V0, ve=V0), "err": ""}
        s, err = ask(lambda: u.segment.create_initial() if x is None else u.segment.create_initial(u.position(*x)))
        try:
            if err:
                raise Weird(err)
            e["s"] = seg_record(s)
        except (Weird, AttributeError) as w:
            e["err"] = str(w)[:80]
        return [e]
    vec = {k: [num(x) for x in q[k]] for k in ("pb", "pe", "vb", "ve")}
    pos, vel = u.position, u.velocity
    s, err = ask(
        lambda: u.segment(q["tb"] / 1024, q["te"] / 1024, pos(*vec["pb"]), vel(*vec["vb"]), pos(*vec["pe"]), vel(*vec["ve"]))
    )
    ev = [{"e": "make", "id": p["id"], "s": q, "off": p["off"], "err": "" if not err else err.split(":")[0]}]
    if err:
        return ev
    tb, te = q["tb"], q["te"]
    moves = list(p["moves"])
    rnd.shuffle(moves)
    for m in moves + [None]:
        for t in {tb, te, tb + (te - tb) // 4, (tb + te) // 2, rnd.randint(min(tb, te), max(tb, te)), tb - 1, te + 1, te + 5000}:
            e = {"e": "at", "t": t, "v": V0, "p": V0, "vkind": "", "pkind": "", "verr": "", "perr": ""}
            for k, fn in (("v", s.get_velocity), ("p", s.get_position)):
                r, err = ask(fn, t / 1024)
                if err:
                    e[k + "err"] = err.split(":")[0]
                else:
                    try:
                        e[k], e[k + "kind"] = four(r), kind(r)
                    except (Weird, AttributeError) as w:
                        e[k + "err"] = str(w)[:60]
            ev.append(e)
        if m is not None:
            _, err = ask(s.move_segment_time, m / 1024)
            tb, te = tb + m, te + m
            ev.append({"e": "move", "n": m, "s": seg_record(s), "err": err or ""})
    speeds = [math.sqrt(sum(x * x for x in vec[k][:3])) for k in ("vb", "ve")]
    for x in [max(speeds) * f for f in (1, 1.5, 0.5, 0.99)] + [min(speeds), 100]:
        if x > 0:
            st = state.p_settings(p_acc=1000, jerk=10, vX=1, vY=1, vZ=1, vE=1, speed=x)
            _, err = ask(s.self_check, st)
            ev.append({"e": "limit", "speed": flt(x), "err": (err or "").split(":")[0]})
    e = {"e": "facts", "err": "", "len": ZERO, "dur": ZERO, "ex": False, "s": q}
    try:
        e["len"], e["dur"], e["ex"] = flt(s.get_segm_len()), flt(s.get_segm_duration()), bool(s.is_extruding())
        e["s"] = seg_record(s)
    except Exception as x:  # noqa: B902
        e["err"] = "question fails: " + type(x).__name__ + str(x)[:60]
    ev.append(e)
    a, b = np.array(vec["vb"][:3]), np.array(vec["ve"][:3])
    line = bool(np.linalg.norm(np.cross(a, b)) <= 1e-9 * (1 + np.linalg.norm(a) * np.linalg.norm(b)) and a @ b >= 0)
    for x in [max(speeds), max(speeds) * 1.5, 0, 80][:: rnd.choice([1, 2])]:
        # at constant speed, or without any travel, nothing is integrated
        e = {"e": "results", "target": flt(x), "vel": [ZERO] * 2, "rel": [ZERO] * 2, "total": [ZERO] * 2, "err": "", "unknown": "",
             "line": line and abs(speeds[0] - speeds[1]) > 0.01 and te - tb > 1 and x > 0.01}
        try:
            s.calc_results(x)
            e["vel"], e["rel"], e["total"] = (flts(s.get_result(k)) for k in ("vel", "rel_vel_err", "segm_error"))
        except Exception as w:  # noqa: B902
            e["err"] = type(w).__name__ + " " + str(w)[:60]
        e["unknown"] = (ask(s.get_result, "nothing")[1] or "").split(":")[0]
        ev.append(e)
    return ev


def random_segment(seed):
    r = random.Random(seed)
    pb = [round(r.uniform(-150, 150), 3) for _ in range(4)]
    if r.random() < 0.6:  # along a line, as moves are
        d = [r.uniform(-1, 1) for _ in range(4)]
        n = math.sqrt(sum(x * x for x in d[:3])) or 1
        a, b = r.choice([0, r.uniform(0, 200)]), r.choice([0, r.uniform(0, 200)])
        vb, ve = [x / n * a for x in d], [x / n * b for x in d]
    else:
        vb, ve = [r.uniform(-200, 200) for _ in range(4)], [r.uniform(-200, 200) for _ in range(4)]
    if r.random() < 0.1:
        vb = ve = [0, 0, 0, r.uniform(-5, 5)]
    tb = r.randint(0, 5000)
    d = r.choice([r.randint(1, 3000), r.randint(1, 1500), r.randint(1, 4), 0])
    x = r.random()
    off = [0] * 4
    if x < 0.1:
        off[r.randrange(3)] = r.choice([-1, 1]) * r.choice([1e-5, 1e-4, 1e-3, 1, 50])
    elif x < 0.15:
        d = -d
    rd = [round(x, 6) for x in vb], [round(x, 6) for x in ve]
    pe = [p + (a + b) / 2 * d / 1024 + o for p, a, b, o in zip(pb, *rd, off)]
    s = dict(tb=tb, te=tb + d, pb=flts(pb), vb=flts(rd[0]), pe=flts(pe), ve=flts(rd[1]))
    return dict(id=f"random-{seed}", s=s, off=flt(max(abs(x) for x in off)), moves=[r.choice([-1, 1]) * r.choice([1, 77, 3000, 100000]) for _ in range(r.randint(0, 2))])


def run_segments(check):
    ok, st, out = core.model_check(
        "MC_Segment",
        "SPECIFICATION Spec\nCONSTANTS Export = TRUE\nPROPERTY MovedAnswers\nINVARIANT Pieces\nINVARIANT Ends\n"
        "INVARIANT NeverFaster\nINVARIANT Additive\nINVARIANT Leaf\nCHECK_DEADLOCK FALSE\n",
    )
    check.model("MC_Segment", ok, st, "Pieces Ends NeverFaster Additive MovedAnswers", out)
    ss = sorted(exported(out, "VF-SEGMENT"), key=json.dumps)
    r = random.Random(core.SEED)
    progs = [dict(id=f"segment-{n}", **s, moves=[r.choice([-300, 2048])] if r.random() < 0.5 else []) for n, s in enumerate(ss)]
    progs += [random_segment(core.SEED * 1000003 + i) for i in range(16000 if THOROUGH else 2000)]
    for n, x in enumerate([None, [0, 0, 0, 0], [1, -2, 3.5, 4], [-300, 120.25, 0, -7]]):
        progs.append(dict(id=f"initial-{n}", initial=x, s=None))
    judge(check, progs, programs.record_all(progs, fn=record_segment), 50)
