"""Searching the segment of an instant with hints, on paths with and without gaps (C34); traces for module Searches."""

import random

import numpy as np

from . import core, gen, programs, record, vectors
from .core import THOROUGH

CLOSE = 1e-9


def same(a, b):
    def vec(s):
        return [s.t_begin, s.t_end] + [x for v in (s.pos_begin, s.pos_end, s.vel_begin, s.vel_end) for x in v.get_vec(withExtrusion=True)]

    return vec(a) == vec(b)


def small_path(p, u):
    """Segments that lie in time as the ranks say."""
    r = random.Random(p["id"])
    last = max(x["b"] for x in p["path"])
    times = [r.choice([0, 0, 0.125, 3.7])]
    for _ in range(2 * last + 2):
        times.append(times[-1] + r.choice([0.25, 0.1, 1, 2.5, 1e-3, r.random() + 1e-3]))
    pos = [round(r.uniform(-50, 50), 2) for _ in range(4)]
    path = []
    v = [0] * 4
    for x in p["path"]:
        a, b = times[2 * x["a"]], times[2 * x["b"]]
        if r.random() < 0.5:
            v = [round(r.uniform(-50, 50), 2) for _ in range(4)]
        w = [round(r.uniform(-50, 50), 2) for _ in range(4)] if r.random() < 0.7 else v
        end = [q + (c + d) / 2 * (b - a) for q, c, d in zip(pos, v, w)]
        path.append(u.segment(a, b, u.position(*pos), u.velocity(*v), u.position(*end), u.velocity(*w)))
        pos, v = end, w
    return path, times


def simulated_path(p, gi, folder):
    r = random.Random(p["id"])
    sim, err, _ = core.call(record.simulate, p, folder)
    if err:
        return []
    path = gi.unpack_blocklist(blocklist=sim.blocklist)
    if p["drop"]:
        path = [s for s in path if r.random() > p["drop"]] or path[:1]
    return path


class Ranks:
    """Order of the instants; instants closer than a nanosecond are one."""

    def __init__(self, times):
        self.t = []
        for x in sorted(times):
            if not self.t or x - self.t[-1][-1] > CLOSE:
                self.t.append([])
            self.t[-1].append(x)

    def __call__(self, x):
        for n, ts in enumerate(self.t):
            if ts[0] - CLOSE <= x <= ts[-1] + CLOSE:
                return n
        return -1


def record_search(p, folder):
    u = vectors.utils()
    gi, _ = record.mods()
    r = random.Random(p["id"] + "/questions")
    if "path" in p:
        path, times = small_path(p, u)
        asks = [(t, h, k) for t in range(len(times) - 1) for h in range(p["hints"] + 1) for k in (False, True)]
        if len(asks) > p["limit"]:
            asks = r.sample(asks, p["limit"])
        asks = [(times[t], h, k) for t, h, k in asks]
    else:
        path = simulated_path(p, gi, folder)
        if not path or path[-1].t_end - path[0].t_begin < 1e-6:
            return []
        ends = sorted({x for s in path for x in (s.t_begin, s.t_end)})
        inner = [(a + b) / 2 for a, b in zip(ends, ends[1:]) if b - a > 10 * CLOSE]
        inner += [r.uniform(ends[0], ends[-1]) for _ in range(20)]
        inner = [x for x in inner if min(abs(x - e) for e in ends) > 2 * CLOSE]
        asks = []
        for _ in range(p["limit"]):
            h = r.choice([0, 1, len(path), len(path) + 1, len(path) + 3, r.randint(1, len(path)), r.randint(1, len(path))])
            t = r.choice(inner + ends) if r.random() < 0.8 else r.choice([ends[0], ends[-1]])
            asks.append((t, h, r.random() < 0.5))
        if r.random() < 0.5:
            asks = [(t, None if n else h, k) for n, (t, h, k) in enumerate(asks)]  # each from the last answer
    rank = Ranks([t for t, _, _ in asks] + [x for s in path for x in (s.t_begin, s.t_end)])
    ev = [{"e": "path", "id": p["id"], "path": [{"a": rank(s.t_begin), "b": rank(s.t_end)} for s in path]}]
    if any(x["a"] > x["b"] for x in ev[0]["path"]) or any(x["b"] > y["a"] for x, y in zip(ev[0]["path"], ev[0]["path"][1:])):
        return []  # not a path; the check of C09 tells
    sums = [(s, s.t_begin, s.t_end, s.pos_begin.x, s.pos_end.y, s.vel_end.x) for s in path]
    saved = None
    for t, h, keep in asks:
        if h is None:
            hint = saved
        else:
            hint = None if h == 0 else h - 1
        kw = {} if hint is None and r.random() < 0.5 else {"last_index": hint}
        if keep or r.random() < 0.5:
            kw["keep_position"] = keep
        if r.random() < 0.2:
            t = np.float64(t)
        res, err, _ = core.call(gi.find_current_segment, path, t, seconds=20, **kw)
        e = {"e": "ask", "t": rank(t), "hint": 0 if hint is None else hint + 1, "keep": keep, "kind": "nothing", "i": 0, "a": -1, "b": -1,
             "still": False, "at": [], "err": "", "same": True}
        ev.append(e)
        saved = None
        if err:
            e["kind"], e["err"] = "error", err.split(":")[0]
        elif res is not None and res[0] is not None:
            s, i = res
            ok = isinstance(i, (int, np.integer)) and 0 <= i < len(path)
            e["i"] = int(i) + 1 if ok else 0
            saved = int(i) if ok else None
            if ok and (s is path[i] or same(s, path[i])):
                e["kind"] = "segment"
            else:
                e["kind"] = "other"
                e["a"], e["b"] = rank(s.t_begin), rank(s.t_end)
                v = [s.vel_begin, s.vel_end, s.get_velocity(t)]
                e["still"] = not any(x for w in v for x in w.get_vec(withExtrusion=True))
                at = [q.get_vec(withExtrusion=True) for q in (s.pos_begin, s.pos_end, s.get_position(t))]
                e["at"] = [n + 1 for n, q in enumerate(path)
                           if all(max(abs(x - y) for x, y in zip(w, q.pos_end.get_vec(withExtrusion=True))) < 1e-9 for w in at)]
        e["same"] = [(s, s.t_begin, s.t_end, s.pos_begin.x, s.pos_end.y, s.vel_end.x) for s in path] == sums
    return ev


def run(check):
    n, last = (4, 6) if THOROUGH else (3, 5)
    ok, st, out = core.model_check(
        "MC_Search",
        f"SPECIFICATION Spec\nCONSTANTS Segments = {n} Last = {last} Export = TRUE\nINVARIANTS Well Answered Total Shared GapsApart "
        "HintIrrelevant Leaf\nCHECK_DEADLOCK FALSE\n",
    )
    check.model("MC_Search", ok, st, "Answered Total Shared GapsApart HintIrrelevant", out)
    paths = sorted(vectors.exported(out, "VF-PATH"), key=str)
    r = random.Random(core.SEED)
    if THOROUGH:
        paths = r.sample(paths, min(len(paths), 3000))
    progs = [dict(id=f"path-{k}", path=q, hints=n + 2, limit=120 if THOROUGH else 60) for k, q in enumerate(paths)]
    scale = 8 if THOROUGH else 1
    for k, p in enumerate(programs.random_programs({"motion": 120, "dwell": 60, "chain": 10, "touch": 40, "rich": 60}, scale)):
        p["drop"] = [0, 0.1, 0.5, 0.9][k % 4]
        p["limit"] = 40
        progs.append(p)
    traces = programs.record_all(progs, fn=record_search)
    byid, tr = {p["id"]: p for p in progs}, dict(traces)
    size = 25
    bundles = [(f"bundle-{k}", [e for _, es in traces[k : k + size] for e in es]) for k in range(0, len(traces), size)]
    bad, st = core.validate("Searches", [b for b in bundles if b[1]], [check.prop])
    st["traces"] = len([1 for _, es in traces if es])
    check.traces(st, [byid[k] for k in list(byid)[:2] + list(byid)[-1:]])
    for clause, pid, i in bad:
        check.violation(clause, f"{pid} question {i}: {str(tr[pid][i])[:300] if i < len(tr[pid]) else ''}", dict(input=byid.get(pid), run=tr.get(pid)))
