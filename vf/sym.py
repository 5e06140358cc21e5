"""Programs and their images under symmetries of the machine (C30)."""

import json
import random
import re
from decimal import Decimal

from . import core, gen, programs, record
from .core import THOROUGH, Weird, codes, flts, nms, secs, flt

AX = "XYZE"
MODES = ("G90", "G91", "M82", "M83", "G20", "G21")


def make(perm=(0, 1, 2, 3), sgn=(1, 1, 1, 1), off=("0",) * 4, num=1, den=1):
    return dict(perm=list(perm), sgn=list(sgn), off=[Decimal(x) for x in off], num=num, den=den)


FIXED = [
    make(off=("12.7", "-25.4", "5.08", "2.54")),
    make(off=("0", "0", "101.6", "0")),
    make(sgn=(-1, 1, 1, 1)),
    make(sgn=(1, -1, 1, 1)),
    make(sgn=(1, 1, -1, 1)),
    make(perm=(1, 0, 2, 3)),
    make(perm=(2, 1, 0, 3)),
    make(perm=(0, 2, 1, 3)),
    make(perm=(1, 2, 0, 3)),
    make(num=2),
    make(den=2),
    make(num=3),
    make(perm=(2, 0, 1, 3), sgn=(-1, 1, -1, 1), off=("-7.62", "0", "50.8", "-1.27"), num=2),
]


def random_symmetry(r, kind=None):
    kind = kind or r.choice(["shift", "mirror", "permute", "scale", "scale", "mixed"])
    tr = make()
    if kind in ("shift", "mixed"):
        tr["off"] = [Decimal(r.randint(-2000, 2000)) * Decimal("0.0254") if r.random() < 0.7 else Decimal(0) for _ in range(4)]
    if kind in ("mirror", "mixed"):
        tr["sgn"] = [r.choice([-1, 1]) for _ in range(3)] + [1]
    if kind in ("permute", "mixed"):
        q = [0, 1, 2]
        r.shuffle(q)
        tr["perm"] = q + [3]
    if kind in ("scale", "mixed"):
        tr["num"], tr["den"] = r.choice([(2, 1), (1, 2), (3, 1), (5, 2), (3, 2)])
    return tr


def text(d):
    s = format(d.normalize() if d else Decimal(0), "f")
    return "0" if s == "-0" else s


class Rewriter:
    """Rewrites the lines of a program (plain layout) word by word."""

    def __init__(self, tr):
        self.tr = tr
        self.f = Decimal(tr["num"]) / Decimal(tr["den"])
        self.abs = self.eabs = True
        self.inch = False
        self.sh = list(tr["off"])

    def line(self, s, r=None):
        code, sep, com = s.partition(";")
        toks = code.split()
        for t in toks:
            if t == "M117":
                break
            if t in ("G90", "G91"):
                self.abs = t == "G90"
            elif t in ("M82", "M83"):
                self.eabs = t == "M82"
            elif t in ("G20", "G21"):
                self.inch = t == "G20"
        cmd = None
        out = []
        zero = []
        for t in toks:
            if cmd not in ("M117", "M0118") and t[0] in "GM" and re.fullmatch(r"[GM][\d.]+", t):
                cmd = t
                out.append(t)
                continue
            out.append(self.word(cmd, t, zero))
        for j in zero:
            self.sh[j] = Decimal(0)
        return " ".join(out) + ((" " if out else "") + sep + com if sep else "")

    def word(self, cmd, t, zero):
        if cmd not in ("G0", "G1", "G92", "M203", "M204", "M205") or not re.fullmatch(r"[A-Z][-+.\d]+", t):
            return t
        a, v = t[0], Decimal(t[1:])
        if a in AX and cmd != "M205":  # X of M205 is the jerk, not an axis
            k = AX.index(a)
            j = self.tr["perm"][k]
            v = v * self.f
            if cmd != "M203":
                v *= self.tr["sgn"][k]
            if cmd in ("G0", "G1") and (self.eabs if k == 3 else self.abs):
                v += self.sh[j] / (Decimal("25.4") if self.inch else 1)
            if cmd == "G92":
                zero.append(j)
            return AX[j] + text(v)
        if (cmd, a) in (("G0", "F"), ("G1", "F"), ("M204", "P"), ("M205", "X")):
            return a + text(v * self.f)
        return t


def image(p, tr):
    """The image of a program."""
    w = Rewriter(tr)
    f = float(w.f)
    s = p["setup"]
    st = dict(p_vel=s["p_vel"] * f, p_acc=s["p_acc"] * f, jerk=s["jerk"] * f)
    names = ["vX", "vY", "vZ", "vE"]
    init = [0.0] * 4
    for k in range(4):
        j = tr["perm"][k]
        st[names[j]] = s[names[k]] * f
        init[j] = float(Decimal(str(p["init"][k])) * tr["sgn"][k] * w.f + tr["off"][j])
    lines = []
    for x in p["lines"]:
        lines.append(w.line(x))
    return dict(p, setup=st, init=tuple(init), lines=lines)


def fits(p, q):
    """No value of the image is finer than the specification resolves."""
    for s in q["lines"]:
        inch = 5 if any("G20" in x for x in p["lines"]) else 6
        for t in s.partition(";")[0].split():
            m = re.fullmatch(r"[XYZE]-?\d+\.?(\d*)", t)
            if m and (len(m.group(1)) > inch or abs(float(t[1:])) > 950):
                return False
    return all(abs(x) < 900 for x in q["init"])


def seg(s):
    return {
        "tb": secs(s.t_begin),
        "te": secs(s.t_end),
        "dt": flt(s.t_end - s.t_begin),
        "pb": nms(s.pos_begin.get_vec(withExtrusion=True)),
        "pe": nms(s.pos_end.get_vec(withExtrusion=True)),
        "vb": flts(s.vel_begin.get_vec(withExtrusion=True)),
        "ve": flts(s.vel_end.get_vec(withExtrusion=True)),
    }


def blocks(sim):
    res = []
    for b in sim.blocklist:
        n = b.state_B.line_number
        res.append({"w": n if isinstance(n, int) else -1, "s": [seg(s) for s in b.get_segments()]})
        if not res[-1]["s"]:
            raise Weird("block without segments")
    return res


def record_pair(job, folder):
    p, q, tr = job["p"], job["q"], job["tr"]
    events = [
        {
            "e": "begin",
            "id": job["id"],
            "tr": {
                "perm": [x + 1 for x in tr["perm"]],
                "sgn": tr["sgn"],
                "off": [int(x * 1000000) for x in tr["off"]],
                "num": tr["num"],
                "den": tr["den"],
            },
            "a": record.begin_event(p),
            "b": record.begin_event(q),
        }
    ]
    events += [{"e": "line", "t": codes(x), "u": codes(y)} for x, y in zip(p["lines"], q["lines"])]
    both = []
    for i, x in enumerate((p, q)):
        d = folder / str(i)
        d.mkdir()
        sim, err, _ = core.call(record.simulate, x, d, seconds=20)
        if err is not None:
            return [events[0], {"e": "crash", "id": job["id"], "err": "exception " + err}]
        try:
            both.append(blocks(sim))
        except Weird as w:
            return [events[0], {"e": "crash", "id": job["id"], "err": str(w)}]
    return events + [{"e": "motion", "a": both[0], "b": both[1]}]


ALPHABET = [
    "G1 X10 Y4 E1",
    "G1 Y-3.5 Z2 F1200",
    "G0 X-2 E-.5",
    "G91",
    "G90",
    "M83",
    "G92 X5 E0",
    "G92 Y-2",
    "G20",
    "M204 P300",
    "M205 X4",
    "M203 X90 Z7",
    "G4 P20",
]


def enumerated(check):
    depth = 3
    fa, fs = core.scratch() / "sym_alphabet.json", core.scratch() / "symmetries.json"
    alphabet = [x.replace("-.5", "-0.5") for x in ALPHABET]
    fa.write_text(json.dumps([codes(x) for x in alphabet]))
    fs.write_text(
        json.dumps(
            [
                dict(
                    perm=[x + 1 for x in t["perm"]],
                    sgn=t["sgn"],
                    off=[int(x * 1000000) for x in t["off"]],
                    num=t["num"],
                    den=t["den"],
                )
                for t in FIXED
            ]
        )
    )
    inv = "Commutes ModesKept ShiftMeaning Corners"
    cfg = (
        f"SPECIFICATION Spec\nCONSTANT Depth = {depth}\nCONSTANT Export = TRUE\n"
        + "".join(f"INVARIANT {x}\n" for x in inv.split())
        + "INVARIANT Leaf\nCHECK_DEADLOCK FALSE\n"
    )
    ok, st, out = core.model_check("MC_Sym", cfg, env={"VF_ALPHABET": str(fa), "VF_SYMMETRIES": str(fs)})
    check.model("MC_Sym", ok, st, inv, out)
    pairs = [
        (int(m.group(1)) - 1, [int(x) - 1 for x in m.group(2).split(",")])
        for m in re.finditer(r'<<"VF-PAIR", (\d+), <<([\d, \n]+)>>\s*>>', out)
    ]
    assert len(pairs) == len(FIXED) * len(alphabet) ** depth, len(pairs)
    pairs.sort()
    pairs = random.Random(core.SEED).sample(pairs, min(len(pairs), 24000 if THOROUGH else 1500))
    fws = ("marlin_jd", "klipper", "marlin_jerk", "MKA", None)
    jobs = []
    for n, (t, s) in enumerate(pairs):
        p = dict(
            id="x",
            lines=[alphabet[i] for i in s] + ["G1 X7.5 Y6.25 Z1.5 E4.25", "G1 X1 Y2 E5"],
            newline="\n",
            final=True,
            setup=dict(p_vel=35, p_acc=1000, jerk=10, vX=180, vY=170, vZ=30, vE=33),
            fw=fws[n % 5],
            init=programs.START,
            cue=None,
        )
        jobs.append(pair(f"enum-{t}-" + ".".join(map(str, s)), p, FIXED[t]))
    return [j for j in jobs if j]


def pair(name, p, tr):
    q = image(p, tr)
    if not fits(p, q):
        return None
    return dict(id=name, p=p, q=q, tr=tr)


PROFILES = ["motion", "corners", "modal", "g92", "dwell", "rich", "settings", "units"]


def randoms(n):
    res = []
    for i in range(n):
        r = random.Random(f"{core.SEED}/sym/{i}")
        prof = PROFILES[i % len(PROFILES)]
        g = gen.Gen(core.SEED * 1000003 + i, prof, name=f"{prof}-{i}")
        g.style = "plain"
        p = g.generate()
        for k in range(6):
            j = pair(f"{prof}-{i}", p, random_symmetry(r))
            if j:
                res.append(j)
                break
    return res


def run(check):
    jobs = enumerated(check) + randoms(6000 if THOROUGH else 480)
    byid = {j["id"]: j for j in jobs}
    assert len(byid) == len(jobs)
    for k in range(0, len(jobs), 4000):
        part = jobs[k : k + 4000]
        traces = programs.record_all(part, fn=record_pair)
        bad, st = core.validate("Sym", traces, [check.prop])
        check.traces(st, [dict(id=j["id"], gcode=j["p"]["lines"][:20], image=j["q"]["lines"][:20]) for j in part[-2:]] if k == 0 else [])
        for clause, pid, where in bad:
            j = byid[pid]
            line = j["p"]["lines"][where - 1] if 0 < where <= len(j["p"]["lines"]) else ""
            check.violation(clause, f"pair {pid} ({j['p']['fw']}) line {where}: {line!r}", dict(pair=j, line=where))
