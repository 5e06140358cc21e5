"""Programs and variations of them: cut at a rest (C35), with higher limits (C36), with divided moves (C37)."""

import json
import random
import re
from decimal import Decimal

from . import core, gen, programs, record, sym
from .core import THOROUGH, Weird, codes

AX = "XYZE"
INCH = Decimal("25.4")
PER_AXIS = ("none", "marlin_jd", "klipper")  # firmwares whose corner speeds never fall with the feedrate


def tokens(line):
    """[(command, [words])] of a line in plain layout; words of messages are left out."""
    res = []
    for t in line.partition(";")[0].split():
        if t[0] in "GM" and re.fullmatch(r"[GM][\d.]+", t):
            res.append((t, []))
            if t in ("M117", "M0118"):
                break
        elif res:
            res[-1][1].append(t)
    return res


class Machine:
    """The machine of a program in plain layout, only to write the lines that restore it."""

    def __init__(self, p):
        self.pos = [Decimal(str(x)) for x in p["init"]]
        self.org = [Decimal(0)] * 4
        self.abs = self.eabs = True
        self.inch = False
        st = p["setup"]
        self.set = {k: st[k] for k in ("p_vel", "p_acc", "jerk", "vX", "vY", "vZ", "vE")}

    def run(self, line):
        """Returns True if the line is a dwell."""
        dwell = False
        toks = tokens(line)
        for c, _ in toks:
            if c in ("G90", "G91"):
                self.abs = c == "G90"
            elif c in ("M82", "M83"):
                self.eabs = c == "M82"
            elif c in ("G20", "G21"):
                self.inch = c == "G20"
        u = INCH if self.inch else Decimal(1)
        for c, words in sorted(toks, key=lambda x: x[0] == "G92"):
            w = {t[0]: Decimal(t[1:]) for t in words if re.fullmatch(r"[A-Z][-+]?[\d.]*\d[\d.]*", t)}
            if c in ("G0", "G1"):
                for k, a in enumerate(AX):
                    if a in w:
                        v = w[a] * u
                        self.pos[k] = self.org[k] + v if (self.eabs if k == 3 else self.abs) else self.pos[k] + v
                if "F" in w:
                    self.set["p_vel"] = float(w["F"] * u) / 60
            elif c == "G92":
                for k, a in enumerate(AX):
                    if a in w:
                        self.org[k] = self.pos[k] - w[a] * u
            elif c == "M204" and "P" in w:
                self.set["p_acc"] = float(w["P"])
            elif c == "M205" and "X" in w:
                self.set["jerk"] = float(w["X"])
            elif c == "M203":
                self.set.update({"v" + a: float(w[a]) for a in AX if a in w})
            elif c == "G4" and ("P" in w or "S" in w):
                dwell = True
        return dwell

    def preamble(self):
        res = ["G92 " + " ".join(a + sym.text(p - o) for a, p, o in zip(AX, self.pos, self.org))]
        return res + ["G91"] * (not self.abs) + ["M83"] * (not self.eabs) + ["G20"] * self.inch


# ------------------------------------------------------------------ cutting
def rests(p):
    """Numbers of the lines that end in rest, with something happening before and after."""
    m = Machine(p)
    res, acts = [], []
    for n, line in enumerate(p["lines"], 1):
        a = list(m.pos)
        d = m.run(line)
        if d or a != m.pos:
            acts.append(n)
        if d or p["fw"] is None or (a[:3] == m.pos[:3] and a[3] != m.pos[3]):
            res.append(n)
    return [n for n in res if acts and acts[0] <= n < acts[-1]]


def cut(name, p, n):
    m = Machine(p)
    for line in p["lines"][:n]:
        m.run(line)
    if any(abs(x - o) > 950 for x, o in zip(m.pos, m.org)) or any(-x.normalize().as_tuple().exponent > 6 for x in m.pos + m.org if x):
        return None
    pre = m.preamble()
    first = dict(p, lines=p["lines"][:n])
    second = dict(p, lines=pre + p["lines"][n:], setup=dict(p["setup"], **m.set), init=tuple(float(x) for x in m.pos))
    events = [dict(e="first", t=codes(x)) for x in first["lines"]]
    events += [dict(record.begin_event(second), e="restore")]
    events += [dict(e="pre", u=codes(x)) for x in pre] + [dict(e="restored")]
    events += [dict(e="both", t=codes(x), u=codes(x)) for x in p["lines"][n:]]
    return dict(id=name, kind="cut", p=p, q=second, first=first, cut=n, events=events)


# ------------------------------------------------------------------ higher limits
def raised(name, p, r, only=None):
    """Raise limits at random, or (only = k) nothing but the k-th one, a lot. None if there is no such limit."""
    kinds = r.choice([("acc",), ("jerk",), ("acc", "jerk"), ("feed",), ("feed", "acc", "jerk")])
    if (p["fw"] or "none") not in PER_AXIS:
        kinds = [k for k in kinds if k != "feed"] or ["acc"]

    few = r.random() < 0.5  # a limit here and there: its effect is not hidden by others

    seen = []

    def more(v, kind):
        if only is not None:
            if kind == "feed" and (p["fw"] or "none") not in PER_AXIS:
                return v
            seen.append(v)
            return v * 10 if len(seen) == only + 1 else v
        if kind not in kinds or few and r.random() < 0.85:
            return v
        return v * r.choice([Decimal(1), Decimal("1.5"), Decimal(2), Decimal("1.1"), Decimal(10)])

    st = dict(p["setup"])
    for k, kind in (("p_vel", "feed"), ("p_acc", "acc"), ("jerk", "jerk")):
        st[k] = float(more(Decimal(str(st[k])), kind))
    lines, events = [], []
    for line in p["lines"]:
        code, sep, com = line.partition(";")
        out, cmd = [], None
        for t in code.split():
            if cmd not in ("M117", "M0118") and re.fullmatch(r"[GM][\d.]+", t):
                cmd = t
            kind = {("G0", "F"): "feed", ("G1", "F"): "feed", ("M204", "P"): "acc", ("M205", "X"): "jerk"}.get((cmd, t[0]))
            if kind and t != cmd:
                t = t[0] + sym.text(more(Decimal(t[1:]), kind))
            out.append(t)
        lines.append(" ".join(out) + ((" " if out else "") + sep + com if sep else ""))
        events.append(dict(e="both", t=codes(line), u=codes(lines[-1])))
    if only is not None and only >= len(seen):
        return None
    return dict(id=name, kind="raise", p=p, q=dict(p, lines=lines, setup=st), first=None, cut=0, events=events)


# ------------------------------------------------------------------ dividing moves
def divided(name, p, r, share=0.5):
    m = Machine(p)
    lines, events, count = [], [], 0
    for line in p["lines"]:
        toks = tokens(line)
        old = Machine.__new__(Machine)
        old.__dict__ = dict(m.__dict__, pos=list(m.pos), org=list(m.org))
        m.run(line)
        parts = None
        if len(toks) == 1 and toks[0][0] in ("G0", "G1") and old.pos[:3] != m.pos[:3] and r.random() < share:
            parts = halves(old, m, line, toks[0], r)
        if parts is None:
            lines.append(line)
            events.append(dict(e="both", t=codes(line), u=codes(line)))
        else:
            n, d, a, b = parts
            lines += [a, b]
            events.append(dict(e="split", t=codes(line), u1=codes(a), u2=codes(b), n=n, d=d))
            count += 1
    if not count:
        return None
    return dict(id=name, kind="split", p=p, q=dict(p, lines=lines), first=None, cut=count, events=events)


def halves(old, new, line, tok, r):
    n, d = r.choice([(1, 2), (1, 4), (3, 4), (1, 5), (2, 5), (4, 5)])
    mid = [a + (b - a) * n / d for a, b in zip(old.pos, new.pos)]
    u = INCH if old.inch else Decimal(1)
    names = [t[0] for t in tok[1]]
    one, two = [], []
    for t in tok[1]:
        if t[0] not in AX:
            one.append(t)
            two.append(t)
            continue
        k = AX.index(t[0])
        absolute = old.eabs if k == 3 else old.abs
        v = ((mid[k] - old.org[k]) if absolute else mid[k] - old.pos[k]) / u
        w = ((new.pos[k] - old.org[k]) if absolute else new.pos[k] - mid[k]) / u
        for x in (v, w):
            if -x.normalize().as_tuple().exponent > (5 if old.inch else 6) or abs(x) > 950:
                return None
        one.append(t[0] + sym.text(v))
        two.append(t[0] + sym.text(w))
    if any(-x.normalize().as_tuple().exponent > 6 for x in mid if x) or any(abs(x) > 400 for x in mid + list(new.pos)):
        return None
    if len(set(names)) != len(names):
        return None
    code, sep, com = line.partition(";")
    return n, d, " ".join([tok[0]] + one), " ".join([tok[0]] + two) + (" " + sep + com if sep else "")


# ------------------------------------------------------------------ recording and checking
def record_pair(job, folder):
    begin = dict(
        e="begin",
        id=job["id"],
        kind=job["kind"],
        cut=job["cut"],
        a=record.begin_event(job["p"]),
        b=record.begin_event(job["p"] if job["kind"] == "cut" else job["q"]),
    )
    sims = []
    for k in ("p", "q", "first"):
        if job[k] is None:
            continue
        d = folder / k
        d.mkdir()
        sim, err, _ = core.call(record.simulate, job[k], d, seconds=20)
        if err is not None:
            return [begin, {"e": "crash", "id": job["id"], "err": "exception " + err}]
        try:
            sims.append(sym.blocks(sim))
        except Weird as w:
            return [begin, {"e": "crash", "id": job["id"], "err": str(w)}]
    return [begin] + job["events"] + [dict(e="motion", a=sims[0], b=sims[1], c=sims[2] if len(sims) > 2 else [])]


LAWS_INV = {"C35": "Cut", "C36": "Raise", "C37": "Split"}
ALPHABET = [
    "G1 X10 Y4 E1",
    "G1 Y-3.5 Z2 F1200",
    "G1 E-.5",
    "G91",
    "M83",
    "G92 X5 E0",
    "G20",
    "M204 P300",
    "M205 X4",
    "M203 X90 Z7",
    "G4 P20",
]
FWS = ("marlin_jd", "klipper", "marlin_jerk", "MKA", None)


def laws(check):
    law = LAWS_INV[check.prop]
    n = {"Cut": 6 if THOROUGH else 4, "Raise": 4 if THOROUGH else 3, "Split": 4 if THOROUGH else 3}[law]
    sizes = f"Targets = {{1, 4}}\nCONSTANT Limits = {{0, {'2' if law == 'Raise' else '1, 4'}}}\nCONSTANT Gains = {{1, 3}}\n"
    cfg = (
        f"SPECIFICATION Spec\nCONSTANT N = {n}\nCONSTANT Raising = {'TRUE' if law == 'Raise' else 'FALSE'}\n"
        f"CONSTANT {sizes}INVARIANT {law}\nCHECK_DEADLOCK FALSE\n"
    )
    ok, st, out = core.model_check("MC_Laws", cfg)
    check.model("MC_Laws", ok, st, law, out)


def enumerated(check):
    """Every history, cut and continuation over the alphabet."""
    before, after = (3, 2) if THOROUGH else (2, 2)
    f = core.scratch() / "parts_alphabet.json"
    alphabet = [x.replace("-.5", "-0.5") for x in ALPHABET]
    f.write_text(json.dumps([codes(x) for x in alphabet]))
    cfg = (
        f"SPECIFICATION Spec\nCONSTANT Before = {before}\nCONSTANT After = {after}\nCONSTANT Export = TRUE\n"
        "INVARIANT Continues\nINVARIANT Leaf\nCHECK_DEADLOCK FALSE\n"
    )
    ok, st, out = core.model_check("MC_Parts", cfg, env={"VF_ALPHABET": str(f)})
    check.model("MC_Parts", ok, st, "Continues", out)
    cases = [
        (int(x), [int(y) - 1 for y in h.split(",")]) for x, h in re.findall(r'<<"VF-CUT", (\d+), <<([\d, \n]+)>>\s*>>', out)
    ]
    n = len(alphabet)
    assert len(cases) == sum(n ** (k + after) for k in range(1, before + 1)), len(cases)
    cases.sort()
    cases = random.Random(core.SEED).sample(cases, 16000 if THOROUGH else 1500)
    return alphabet, cases


def enumerated_cuts(check):
    alphabet, cases = enumerated(check)
    jobs = []
    for k, (c, h) in enumerate(cases):
        # the history ends with a rest
        stop = ["G4 P30", "G1 E7.25", "G4 S0", "G1 X3 Y-2.5"][k % 4]
        p = gen.base(None, str(k), "cut", None if k % 4 == 3 else FWS[k % 5], p_vel=35, jerk=10, vY=170)
        p["lines"] = [alphabet[i] for i in h[:c]] + [stop] + [alphabet[i] for i in h[c:]] + ["G1 X7.5 Y6.25 Z1.5 E4.25", "G1 X1 Y2 E5"]
        p["init"] = programs.START
        jobs.append(cut(f"enum-{c}-" + ".".join(map(str, h)), p, c + 1) if c + 1 in rests(p) else None)
    return [j for j in jobs if j]


PROFILES = {
    "cut": ["dwell", "modal", "g92", "rich", "settings", "motion", "units", "corners", "layers"],
    "raise": ["motion", "changing", "settings", "rich", "dwell", "chain", "corners", "touch", "units", "motion", "changing", "corners"],
    "split": ["motion", "corners", "modal", "rich", "g92", "dwell", "units", "changing", "corners"],
}


def little(m):
    return sym.text(round(Decimal(m.group(1)) / 500, 4))


def randoms(kind, n):
    res = []
    for i in range(n):
        prof = PROFILES[kind][i % len(PROFILES[kind])]
        seed = core.SEED * 1000003 + i
        r = random.Random(f"{seed}/{kind}")
        if prof in gen.SPECIAL:
            p = gen.program(seed, prof)
        else:
            g = gen.Gen(seed, prof, name=f"{prof}-{i}", **({"fw": None} if kind == "cut" and i % 4 == 0 else {}))
            g.style = "plain"
            p = g.generate()
        name = f"{kind}-{prof}-{i}"
        if prof not in gen.SPECIAL and r.random() < 0.15:  # hardly any extrusion
            p["lines"] = [re.sub(r"(?<= E)([-+]?[\d.]*\d[\d.]*)(?= |$)", little, x) if x[:2] in ("G0", "G1") else x for x in p["lines"]]
        if kind == "cut":
            k = rests(p)
            j = cut(name, p, r.choice(k)) if k else None
        elif kind == "raise":
            j = raised(name, p, r)
            if prof == "changing":  # each of the first limits alone
                res += [x for x in (raised(f"{name}-only{k}", p, r, k) for k in range(10)) if x]
        else:
            j = divided(name, p, r, r.choice([0.3, 0.7, 1]))
        if j:
            res.append(j)
    return res


def run(check):
    laws(check)
    kind = {"C35": "cut", "C36": "raise", "C37": "split"}[check.prop]
    jobs = randoms(kind, 10000 if THOROUGH else 900)
    if kind == "cut":
        jobs += enumerated_cuts(check)
    byid = {j["id"]: j for j in jobs}
    assert len(byid) == len(jobs)
    for k in range(0, len(jobs), 4000):
        part = jobs[k : k + 4000]
        traces = programs.record_all(part, fn=record_pair)
        bad, st = core.validate("Variations", traces, [check.prop])
        check.traces(st, [dict(id=j["id"], gcode=j["p"]["lines"][:20], variation=j["q"]["lines"][:20]) for j in part[-2:]] if k == 0 else [])
        for clause, pid, where in bad:
            j = byid[pid]
            line = j["p"]["lines"][where - 1] if 0 < where <= len(j["p"]["lines"]) else ""
            data = dict(id=pid, program=j["p"], variation=j["q"], line=where)
            check.violation(clause, f"pair {pid} ({j['p']['fw']}) line {where}: {line!r}", data)
