"""Generator of G-code programs inside the domain of the properties.

A program is a dict
    id, lines (text of each line), newline, final (newline after the last line), setup, fw, init, cue
The generator keeps a small mirror of the machine, only to keep coordinates inside the range the
specification can represent and away from angles at which a corner law is discontinuous.
"""

import math
import random

FIRMWARES = [None, "marlin_jd", "klipper", "marlin_jerk", "MKA"]
AX = "XYZE"
CUE = "LAYER_CHANGE"


class Mirror:
    def __init__(self, init, inch=False):
        self.pos = [float(x) for x in init]
        self.org = [0.0] * 4
        self.abs = True
        self.eabs = True
        self.inch = inch
        self.F = 0
        self.dirs = []  # directions of the moves

    def u(self):
        return 25.4 if self.inch else 1.0

    def target(self, words):
        p = list(self.pos)
        for k, a in enumerate(AX):
            if a in words:
                v = words[a] * self.u()
                p[k] = (self.org[k] + v) if (self.eabs if a == "E" else self.abs) else p[k] + v
        return p

    def logical(self, k):
        return (self.pos[k] - self.org[k]) / self.u()


def num(r, v, plain=0.55):
    """Text of the decimal number v (given as int * 10^-d pair), in some layout."""
    n, d = v
    neg = n < 0
    s = str(abs(n)).rjust(d + 1, "0")
    i, f = (s[: len(s) - d], s[len(s) - d :]) if d else (s, "")
    f2 = f.rstrip("0")
    x = r.random()
    if x < plain:
        t = i + ("." + f if f else "")
    elif x < plain + 0.1:
        t = i + "." + f + "0" * r.randint(0, 2)
    elif x < plain + 0.2:
        t = "0" * r.randint(1, 2) + i + ("." + f2 if f2 else "")
    elif x < plain + 0.28 and i.strip("0") == "" and f2:
        t = "." + f2
    elif x < plain + 0.35:
        t = i + ("." + f2 if f2 else ".")
    else:
        t = i + ("." + f2 if f2 else "")
    sign = "-" if neg else ("+" if r.random() < 0.04 else "")
    return sign + t


def val(v):
    return v[0] / 10 ** v[1]


def blank(r, style):
    if style == "plain":
        return " "
    return r.choice([" ", " ", " ", "", "  ", "\t", " \t "])


def word(r, letter, v, style):
    t = num(r, v, 1.0 if style == "plain" else 0.5)
    if style != "plain":
        x = r.random()
        if x < 0.08:
            t = " " + t
        elif x < 0.12:
            t = "\t" + t
        elif x < 0.17 and len(t) > 2:
            k = r.randint(1, len(t) - 1)
            t = t[:k] + " " * r.randint(1, 2) + t[k:]
    return letter + t


COMMENTS = [
    "TYPE:WALL-OUTER",
    "G1 X5 Y5 F100",
    "G28",
    "G92 E0 ; twice ; nested",
    "M204 P1",
    "LAYER:3",
    CUE,
    CUE,
    CUE,
    CUE + "S",
    "x" + CUE,
    "  spaced  ",
    "",
    "   ",
    "G4 S10",
    "G91",
    "G20",
    "MESH:a.stl F9",
    "time=1.5 E7",
    "Schicht \u00e4\u00f6 0,4 \u00b5m",
    "\u5c42 1",
]
UNKNOWN = [
    "M104 S200",
    "M106 S255",
    "M107",
    "M140 S60",
    "M109 S210",
    "G12",
    "G17",
    "G30",
    "G30 X5 Y5",
    "G92.1",
    "G5 X1 Y2",
    "G53",
    "M84",
    "M20",
    "M2",
    "M8",
    "M2040 P7",
    "M220 S100",
    "G38.2 X5",
    "G40",
    "G80",
    "G900",
    "G129",
    "M83.5",
    "T0",
    "T1",
    "M117 hello",
    "M117 G1 X5 F7",
    "M0118 G28 done",
    "M117 M204 P5 ; G1",
    "M201 X500 Y500",
]
UNSUP = ["G28", "G28 X Y", "G28 Z0", "G2 X5 Y5 I2 J0", "G3 X1 I1", "G10", "G11", "G29", "G29 P1", "G02 X5 I1", "G028",
         "G28 G29", "G29 P1 G28 X", "G28 M104 S200", "M106 S1 G10", "G10 G11", "G11 G10 G28", "G2 X5 I1 G3 X1 J2"]


class Gen:
    def __init__(self, seed, profile="rich", n=None, fw=..., name=None):
        self.r = r = random.Random(f"{seed}/{profile}")
        self.profile = profile
        self.w = w = random.Random(f"{seed}/{profile}/wide")
        self.n = n or (w.randint(120, 260) if w.random() < 0.012 else r.randint(4, 26))
        self.wide = w.random() < 0.12  # values of any size
        self.fw = r.choice(FIRMWARES) if fw is ... else fw
        self.name = name or f"{profile}-{seed}"
        self.style = r.choice(["plain", "plain", "wild"]) if profile not in ("text",) else "wild"
        self.small = r.random() < 0.3
        self.tiny = r.random() < 0.07
        self.slow = random.Random(f"{seed}/{profile}/slow").random() < (0.2 if profile == "corners" else 0.05)
        self.small = self.small or self.slow
        self.lines = []
        self.planar = r.random() < 0.6

    # -------------------------------------------------------------- values
    def coord(self, m, a, bound):
        """A programmed value for axis a that keeps the machine inside the bound (mm)."""
        r = self.r
        k = AX.index(a)
        d = r.choice([0, 1, 2, 3, 3] if not m.inch else [1, 2, 3, 4])
        absolute = m.eabs if a == "E" else m.abs
        if r.random() < 0.05:  # values that coincide with others
            v = r.choice([0, m.logical(k), m.pos[k] / m.u(), m.org[k] / m.u(), m.logical(k - 1)]) if absolute else 0
            n = round(v * 10**d)
            p = m.org[k] + n / 10**d * m.u() if absolute else m.pos[k]
            if abs(p) < bound and (a != "E" or abs(p - m.pos[k]) < 5):
                return (n, d)
        if not m.inch and r.random() < (0.25 if self.tiny else 0.01):  # micrometres
            d = r.choice([4, 5, 6])
            delta = r.randint(-9, 9) * 10 ** r.choice([0, 0, 1, 2]) / 10**6
            v = m.logical(k) + delta if absolute else delta
            n = round(v * 10**d)
            p = m.org[k] + n / 10**d if absolute else m.pos[k] + n / 10**d
            if abs(p) < min(bound, 200):
                return (n, d)
        for _ in range(20):
            if a == "E":
                delta = r.choice([r.uniform(-1, 3), r.uniform(0, 2), r.uniform(0, 0.2), -2, 2, 0])
            else:
                delta = r.choice([r.uniform(-30, 30), r.uniform(-5, 5), r.uniform(-1, 1), r.choice([-10, 10, 5, -5])])
                if self.small:
                    delta /= r.choice([5, 20, 100])
                if r.random() < 0.06:
                    delta = 0
            delta /= m.u()
            v = m.logical(k) + delta if absolute else delta
            n = round(v * 10**d)
            x = n / 10**d * m.u()
            p = m.org[k] + x if absolute else m.pos[k] + x
            if abs(p) < bound:
                return (n, d)
        return None

    def comment(self):
        return self.r.choice(COMMENTS)

    # -------------------------------------------------------------- lines
    def move(self, m, force=None):
        r = self.r
        words = {}
        axes = []
        kind = force or r.choice(["xy", "xy", "xy", "xye", "xye", "any", "x", "y", "z", "e", "f", "xyz"])
        if kind == "any":
            axes = [a for a in AX if r.random() < 0.5]
        elif kind == "f":
            axes = []
        else:
            axes = [a.upper() for a in kind]
        for a in axes:
            v = self.coord(m, a, 300)
            if v is not None:
                words[a] = v
        if r.random() < (0.9 if kind == "f" else 0.3) or not words:
            f = r.choice([300, 600, 900, 1200, 1800, 2400, 3000, 4500, 6000, 9000, 12000])
            if m.inch:
                f = r.choice([20, 40, 60, 120, 240])
            elif self.slow and self.profile != "units" and r.random() < 0.7:
                f = r.choice([20, 30, 45, 59, 60, 61, 90, 120])
            words["F"] = (f, 0) if r.random() < 0.8 else (f * 10 + r.randint(1, 9), 1)
            if self.wide:
                f = math.exp(self.w.uniform(math.log(30), math.log(30000))) / m.u()
                d = self.w.choice([0, 0, 1, 2, 3])
                words["F"] = (max(1, round(f * 10**d)), d)
        return words

    def text(self, cmd, words):
        r = self.r
        items = list(words.items())
        if self.style == "wild":
            r.shuffle(items)
            if cmd[0] in "GM" and r.random() < 0.2:
                cmd = cmd[0] + "0" * r.randint(1, 2) + cmd[1:]
        t = cmd
        for a, v in items:
            t += blank(r, self.style) + word(r, a, v, self.style)
        return t

    def finish_line(self, t):
        r = self.r
        if self.style == "wild":
            t = r.choice(["", "", "", " ", "\t", "  "]) + t + r.choice(["", "", "", " ", "\t"])
        x = r.random()
        if x < (0.25 if self.style == "wild" else 0.1):
            c = self.comment()
            t += r.choice(["", " "]) + ";" + r.choice(["", " "]) + c
        return t

    def apply_move(self, m, words):
        w = {a: val(v) for a, v in words.items()}
        p = m.target(w)
        d = [b - a for a, b in zip(m.pos, p)]
        if any(abs(x) > 1e-9 for x in d):
            if not self.angle_ok(m, d):
                return False
            m.dirs.append(d)
        m.pos = p
        return True

    def angle_ok(self, m, d):
        if not m.dirs:
            return True
        a, b = m.dirs[-1][:3], d[:3]
        na, nb = math.dist(a, (0, 0, 0)), math.dist(b, (0, 0, 0))
        if na < 1e-9 or nb < 1e-9:
            return True
        c = max(-1.0, min(1.0, sum(x * y for x, y in zip(a, b)) / na / nb))
        cr = math.dist(
            (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]), (0, 0, 0)
        ) / (na * nb)
        dev = math.degrees(math.atan2(cr, c))  # 0 straight, 180 reversal
        if self.fw == "marlin_jd" and (abs(dev - 18) < 0.2 or abs(dev - 162) < 0.2):
            return False
        if self.fw == "klipper" and (0.005 < dev < 0.6 or 0.005 < 180 - dev < 0.6):
            return False
        return True

    def generate(self):
        r = self.r
        p = self.profile
        init = (0, 0, 0, 0)
        if r.random() < 0.4:
            init = tuple(round(r.uniform(-20, 20), 3) for _ in range(4))
        self.init = init
        jerks = [0.3, 1, 2, 5, 8, 10, 20, 30]
        if self.fw in (None, "marlin_jd", "klipper"):
            jerks += [0]
        self.jerks = jerks
        setup = dict(
            p_vel=r.choice([35, 35.5, 60, 20]),
            p_acc=r.choice([100, 500, 1000, 1500, 3000, 10000]),
            jerk=r.choice(jerks),
            vX=180,
            vY=r.choice([180, 200.5]),
            vZ=30,
            vE=33,
        )
        if self.wide:
            any_ = lambda a, b, d: round(math.exp(self.w.uniform(math.log(a), math.log(b))), self.w.randint(0, d))  # noqa: E731
            setup = dict(p_vel=any_(2, 300, 3), p_acc=any_(20, 30000, 2), jerk=max(0.3, any_(0.5, 60, 2)),
                         vX=any_(50, 900, 2), vY=any_(50, 900, 2), vZ=any_(2, 90, 2), vE=any_(10, 150, 2))
        m = Mirror(init)
        weights = dict(move=60, mode=6, g92=5, dwell=4, set=6, unknown=3, unsup=3, blank=3, comment=5, cue=4, multi=3, unit=1)
        if p == "motion":
            weights = dict(move=81, set=5, moveset=5, mode=2, g92=2, dwell=2, comment=2)
        elif p == "corners":
            weights = dict(move=88, set=3, dwell=1, moveset=8)
        elif p == "modal":
            weights = dict(move=50, mode=20, g92=12, unit=6, multi=8, set=4)
        elif p == "g92":
            weights = dict(move=45, mode=12, g92=28, unit=5, dwell=3, multi=7)
        elif p == "settings":
            weights = dict(move=34, set=36, moveset=10, mode=5, g92=3, unit=3, unknown=4, multi=5)
        elif p == "units":
            weights = dict(move=55, unit=20, g92=12, mode=10, multi=3)
        elif p == "dwell":
            weights = dict(move=55, dwell=30, set=5, mode=4, g92=3, comment=3)
        elif p == "inert":
            weights = dict(move=40, unknown=22, unsup=24, comment=8, blank=3, dwell=3)
        elif p == "layers":
            weights = dict(move=60, cue=18, comment=10, dwell=5, blank=4, unknown=3)
        names, ws = list(weights), list(weights.values())
        units_allowed = p in ("units", "modal", "g92", "rich", "text", "settings")
        tries = 0
        paused = False
        while len(self.lines) < self.n and tries < 400:
            tries += 1
            k = r.choices(names, ws)[0]
            if k == "move":
                words = self.move(m)
                if not self.apply_move(m, words):
                    continue
                t = self.text(r.choice(["G1", "G1", "G0"]), words)
            elif k == "mode":
                c = r.choice(["G90", "G91", "M82", "M83"])
                self.mode(m, c)
                t = self.text(c, {})
            elif k == "unit":
                if not units_allowed:
                    continue
                c = r.choice(["G20", "G21", "G21"]) if m.inch else r.choice(["G20", "G21"])
                m.inch = c == "G20"
                t = self.text(c, {})
            elif k == "g92":
                words = self.g92(m) if r.random() < 0.95 else {}
                if words is None:
                    continue
                t = self.text("G92", words)
            elif k == "dwell":
                t = self.dwell()
                paused = paused or t != "G4"
            elif k == "set":
                if m.inch:
                    continue
                t = self.setting()
            elif k == "moveset":
                if m.inch:
                    continue
                words = self.move(m)
                if not self.apply_move(m, words):
                    continue
                t = [self.text(r.choice(["G1", "G0"]), words), self.setting()]
                r.shuffle(t)
                t = " ".join(t)
            elif k == "unknown":
                t = r.choice(UNKNOWN)
                if r.random() < 0.1:
                    t = "N%d " % r.randint(1, 99) + t
            elif k == "unsup":
                t = r.choice(UNSUP)
            elif k == "blank":
                t = r.choice(["", "", " ", "\t"])
                self.lines.append(t)
                continue
            elif k == "comment":
                t = r.choice(["", " "]) + ";" + r.choice(["", " ", "\t"]) + self.comment()
                self.lines.append(t)
                continue
            elif k == "cue":
                t = r.choice([";" + CUE, "; " + CUE, ";" + CUE + "  ", ";" + CUE, "; " + CUE + " 1"])
                self.lines.append(t)
                continue
            elif k == "multi":
                t = self.multi(m)
                if t is None:
                    continue
            self.lines.append(self.finish_line(t))
        if not m.dirs and not paused:
            words = {"X": self.coord(m, "X", 300) or (1, 0)}
            w = dict(words)
            self.apply_move(m, w)
            self.lines.append(self.text("G1", words))
            if not m.dirs:
                self.lines.append("G4 P10")
        cue = None
        if p == "layers" or r.random() < 0.4:
            cue = CUE
        return dict(
            id=self.name,
            lines=self.lines,
            newline=r.choice(["\n", "\n", "\r\n"]),
            final=r.random() < 0.8,
            setup=setup,
            fw=self.fw,
            init=init,
            cue=cue,
        )

    def mode(self, m, c):
        if c == "G90":
            m.abs = True
        elif c == "G91":
            m.abs = False
        elif c == "M82":
            m.eabs = True
        else:
            m.eabs = False

    def g92(self, m):
        r = self.r
        axes = [a for a in AX if r.random() < 0.4] or [r.choice(AX)]
        words = {}
        for a in axes:
            k = AX.index(a)
            d = r.choice([0, 1, 2, 3])
            v = r.choice([0, 0, 0, r.uniform(-20, 20)]) / m.u()
            if r.random() < 0.2:  # the position as it is
                v = r.choice([m.logical(k), m.pos[k] / m.u()])
            n = round(v * 10**d)
            words[a] = (n, d)
            m.org[k] = m.pos[k] - n / 10**d * m.u()
            if abs(m.org[k]) > 500:
                return None
        return words

    def dwell(self):
        r = self.r
        if self.wide and self.w.random() < 0.5:
            d = self.w.choice([0, 1, 2, 3])
            return self.text("G4", {"P": (self.w.randint(0, 9000 * 10 ** min(d, 1)), d)} if self.w.random() < 0.6 else {"S": (self.w.randint(0, 9000), d)})
        x = r.random()
        if x < 0.5:
            return self.text("G4", {"P": r.choice([(0, 0), (1, 0), (50, 0), (100, 0), (250, 0), (500, 0), (1234, 0), (5, 1), (1225, 2)])})
        if x < 0.9:
            return self.text("G4", {"S": r.choice([(0, 0), (1, 0), (5, 1), (25, 2), (2, 0), (12, 4)])})
        if x < 0.95:
            return "G4"
        return self.text("G4", {"P": (100, 0), "S": (2, 0)})

    def setting(self):
        r = self.r
        x = r.random()
        if self.wide and x < 0.8 and self.w.random() < 0.7:
            d = self.w.choice([0, 0, 1, 2])
            if x < 0.4:
                return self.text("M204", {"P": (round(math.exp(self.w.uniform(math.log(20), math.log(30000))) * 10**d), d)})
            return self.text("M205", {"X": (max(1, round(self.w.uniform(0.4, 60) * 10**d)), d)})
        if x < 0.4:
            w = {"P": r.choice([(50, 0), (100, 0), (500, 0), (1000, 0), (3000, 0), (8000, 0), (7505, 1)])}
            if r.random() < 0.25:
                w[r.choice("TTRS")] = (r.choice([100, 700]), 0)
            if r.random() < 0.12:
                w = {r.choice("TRS"): (r.choice([100, 700]), 0)}
            return self.text("M204", w)
        if x < 0.43:
            return self.text("M205", {r.choice("YZESJ"): (r.randint(1, 30), 0)})
        if x < 0.8:
            return self.text("M205", {"X": (r.choice([j for j in self.jerks if j != 0.3]), 0) if r.random() < 0.7 else (r.randint(2, 200), 1)})
        axes = [a for a in AX if r.random() < 0.5] or ["X"]
        return self.text("M203", {a: (r.randint(10, 500), 0) if r.random() < 0.8 else (r.randint(100, 5000), 1) for a in axes})

    def multi(self, m):
        """Several commands in one line, in canonical order."""
        r = self.r
        parts = []
        x = r.random()
        if x < 0.5:
            c = r.choice(["G90", "G91", "M82", "M83"])
            self.mode(m, c)
            parts.append(self.text(c, {}))
            if r.random() < 0.3:
                c2 = r.choice(["M82", "M83"] if c[0] == "G" else ["G90", "G91"])
                self.mode(m, c2)
                parts.append(self.text(c2, {}))
            words = self.move(m)
            if not self.apply_move(m, words):
                return None
            parts.append(self.text("G1", words))
        elif x < 0.75:
            words = self.move(m)
            if not self.apply_move(m, words):
                return None
            parts.append(self.text(r.choice(["G1", "G0"]), words))
            w = self.g92(m)
            if w is None:
                return None
            parts.append(self.text("G92", w))
        elif not m.inch:
            words = self.move(m)
            if not self.apply_move(m, words):
                return None
            parts.append(self.text("G1", words))
            parts.append(self.setting())
        else:
            c = "G21"
            m.inch = False
            parts.append(c)
            words = self.move(m)
            if not self.apply_move(m, words):
                return None
            parts.append(self.text("G1", words))
        return r.choice([" ", "  ", ""] if self.style == "wild" else [" "]).join(parts)


def dec(n, d):
    """Text of n * 10^-d."""
    s = str(abs(n)).rjust(d + 1, "0")
    s = (s[: len(s) - d] + "." + s[len(s) - d :]).rstrip("0").rstrip(".") if d else s
    return ("-" if n < 0 else "") + s


def base(r, seed, profile, fw, **setup):
    d = dict(p_vel=20, p_acc=1000, jerk=8, vX=180, vY=180, vZ=30, vE=33)
    d.update(setup)
    return dict(id=f"{profile}-{seed}", lines=[], newline="\n", final=True, setup=d, fw=fw, init=(0, 0, 0, 0), cue=None)


def chain(seed, fw=..., n=None):
    """A long chain of short moves along a smooth curve: corrections reach far back."""
    r = random.Random(f"{seed}/chain")
    fw = r.choice(["marlin_jd", "klipper", "marlin_jerk", "MKA"]) if fw is ... else fw
    p = base(r, seed, "chain", fw, p_acc=r.choice([20, 50, 100, 300, 1000]), jerk=r.choice([8, 20]), p_vel=r.choice([20, 60]))
    n = n or r.choice([40, 80, 120])
    step = r.choice([0.05, 0.1, 0.2, 0.4])
    phi = r.uniform(0, 6.28)
    bend = r.choice([0.03, 0.05, -0.04, 0.1]) if fw != "klipper" else r.choice([0.02, 0.05, -0.06])
    x = y = e = 0
    lines = ["M83", "G1 F%d" % r.choice([1200, 3600, 6000])] if r.random() < 0.7 else ["G91", "M83"]
    inc = lines[0] == "G91"
    for i in range(n):
        k = r.random()
        if k < 0.02:
            lines.append("G4 P%d" % r.randint(0, 40))
            continue
        if k < 0.03:
            lines.append("M204 P%d" % r.choice([20, 50, 200, 1000]))
        if k > 0.985:
            phi += r.choice([1.5, -1.5, 2.5])
        s = step * r.choice([1, 1, 1, 0.5, 3]) * (20 if k > 0.97 else 1)
        dx, dy = round(s * math.cos(phi) * 1e5), round(s * math.sin(phi) * 1e5)
        x, y = x + dx, y + dy
        f = " F%d" % r.choice([300, 1200, 2400, 6000, 9000]) if r.random() < 0.06 else ""
        w = " E%s" % dec(r.randint(0, 4000), 5) if r.random() < 0.6 else ""
        lines.append("G1 X%s Y%s%s%s" % (dec(dx if inc else x, 5), dec(dy if inc else y, 5), w, f))
        phi += bend
    if not any(x.startswith("G1 X") for x in lines):
        lines.append("G1 X1 Y1")
    p["lines"] = lines
    return p


def ramp(seed, fw=..., n=None):
    """Hundreds of short moves in a row, none of which is long enough to brake: braking begins hundreds of lines before a stop."""
    r = random.Random(f"{seed}/ramp")
    fw = r.choice(["marlin_jd", "klipper", "marlin_jerk", "MKA"]) if fw is ... else fw
    p = base(r, seed, "ramp", fw, p_acc=r.choice([50, 100, 200]), jerk=r.choice([8, 20]), p_vel=r.choice([120, 150]))
    n = n or r.choice([250, 400, 700])
    step = r.choice([2, 3, 5])  # 1e-2 mm
    sx, sy = r.choice([(1, 0), (0, 1), (-1, 0), (0, -1)])
    x = y = 0
    inc = r.random() < 0.5
    lines = ["G91" if inc else "G90", "M83"]
    stop = {n - 1} if r.random() < 0.6 else {n // 5, n - 1}
    for i in range(n):
        d = step * r.choice([1, 1, 1, 2])
        x, y = x + sx * d, y + sy * d
        w = " E%s" % dec(d, 3) if i % 3 else ""
        a, b = (sx * d, sy * d) if inc else (x, y)
        lines.append("G1 X%s Y%s%s" % (dec(a, 2), dec(b, 2), w))
        if i in stop:
            lines.append(r.choice(["G4 P0", "G4 P20", "M204 P%d" % r.choice([50, 100, 200])]))
            if r.random() < 0.5:
                sx, sy = -sx, -sy
    p["lines"] = lines
    return p


def stops(seed, fw=...):
    """No jerk at all under the jerk laws: moves along the axes, so that going straight on is exactly that."""
    r = random.Random(f"{seed}/stops")
    fw = r.choice(["marlin_jerk", "MKA"]) if fw is ... else fw
    p = base(r, seed, "stops", fw, p_acc=r.choice([100, 500, 2000]), jerk=0 if r.random() < 0.6 else 5, p_vel=r.choice([20, 60]))
    lines = ["G91"]
    a, s = "X", 1
    for _ in range(r.randint(3, 14)):
        k = r.random()
        if k < 0.35:
            a, s = r.choice("XXYYZ"), r.choice([1, -1])
        f = " F%d" % r.choice([600, 1200, 3600]) if r.random() < 0.3 else ""
        lines.append("G1 %s%s%s" % (a, dec(s * r.choice([1, 5, 20, 50, 200]), 1), f))
        if k > 0.9:
            lines.append(r.choice(["G4 P10", "M205 X0", "M205 X0", "M205 X5"]))
    p["lines"] = lines
    return p


def touch(seed, fw=...):
    """Moves whose lengths make ramps meet exactly: they reach a speed exactly at an end or at mid-move."""
    r = random.Random(f"{seed}/touch")
    fw = r.choice(FIRMWARES) if fw is ... else fw
    p = base(r, seed, "touch", fw, p_acc=r.choice([100, 200, 500, 1000, 300, 700, 1100, 1700]), jerk=r.choice([5, 10, 100]))
    odd = r.random() < 0.6
    stop = r.random() < 0.3  # every move from rest to rest, just reaching its feedrate
    if stop:
        odd, p["fw"], p["setup"]["p_acc"] = True, None, r.choice([100, 200, 500, 1000, 2500])
    acc = p["setup"]["p_acc"]
    lines = ["G91", "M83"]
    T = 20
    ax = "X"
    pos = {"X": 0, "Y": 0, "Z": 0, "E": 0}
    sgn = 1
    for i in range(r.randint(3, 14)):
        k = r.random()
        f = ""
        if k < (0.8 if stop else 0.3):
            T2 = r.randint(30, 700) / 10 if odd else r.choice([5, 10, 20, 30, 40, 50, 60])
            f = " F%d" % round(T2 * 60)
        else:
            T2 = T
        unit = 1e5 / (2 * acc)  # 1e-5 mm
        full, half, step = 2 * T2 * T2 * unit, T2 * T2 * unit, abs(T2 * T2 - T * T) * unit
        n = r.choice([full, half, half, step, step, full - step, 2 * full, full + half, half + step, full / 4, 3 * half / 2])
        if stop and r.random() < 0.8:
            n = full
        else:
            n = abs(n) + r.choice([0, 0, 0, 0, 0.1, -0.1, 1, -1])  # and just beside
        n = round(n * 10)
        T = T2
        if k > 0.9:
            lines.append("G4 P%d" % r.choice([0, 5]))
        elif k > 0.85:
            acc = r.choice([100, 200, 500, 1000])
            lines.append("M204 P%d" % acc)
        if r.random() < 0.15:
            ax, sgn = r.choice([("X", 1), ("Y", 1), ("Y", -1), ("X", -1), ("Z", 1)])
        if n <= 0:
            continue
        a = ax if r.random() < 0.9 else "E"
        if abs(pos[a] + sgn * n) > 200e6:
            sgn = -sgn
        if abs(pos[a] + sgn * n) > 200e6:
            continue
        pos[a] += sgn * n
        lines.append("G1 %s%s%s" % (a, dec(sgn * n, 6), f))
    if not any(x.startswith("G1") for x in lines):
        lines.append("G1 X1")
    p["lines"] = lines
    return p


def changing(seed, fw=..., n=None):
    """Corners at which the acceleration, the jerk or the feedrate changes."""
    r = random.Random(f"{seed}/changing")
    fw = r.choice(["marlin_jd", "klipper", "marlin_jerk", "MKA"]) if fw is ... else fw
    p = base(r, seed, "changing", fw, p_acc=r.choice([100, 300, 1000]), jerk=r.choice([4, 8, 20]), p_vel=r.choice([20, 60, 120]))
    phi, x, y = r.uniform(0, 6.28), 0, 0
    lines = ["M83"]
    for _ in range(n or r.randint(3, 9)):
        limits = [
            r.choice(["M204 P%d" % r.choice([60, 200, 700, 2000]), "M205 X%d" % r.choice([2, 6, 12, 30])])
            for _ in range(r.choice([0, 1, 1, 2, 2, 3]))
        ]
        same = limits.pop() + " " if limits and r.random() < 0.4 else ""  # on the line of the move
        lines += limits
        s = r.choice([1, 4, 20, 60])
        dx, dy = round(s * math.cos(phi) * 1e3), round(s * math.sin(phi) * 1e3)
        if abs(x + dx) > 300000 or abs(y + dy) > 300000:
            dx, dy = -dx, -dy
        x, y = x + dx, y + dy
        f = " F%d" % r.choice([600, 1800, 5400, 9000]) if r.random() < 0.3 else ""
        lines.append(same + "G1 X%s Y%s%s%s" % (dec(x, 3), dec(y, 3), " E%s" % dec(r.randint(0, 4000), 3) if r.random() < 0.5 else "", f))
        phi += r.choice([0.3, -0.5, 1.0, 1.5708, -1.2, 2.0, 2.6])
    p["lines"] = lines
    return p


SPECIAL = {"chain": chain, "touch": touch, "ramp": ramp, "stops": stops, "changing": changing}


def program(seed, profile, **kw):
    if profile in SPECIAL:
        return SPECIAL[profile](seed, **kw)
    for k in range(20):
        g = Gen(f"{seed}.{k}" if k else seed, profile, name=f"{profile}-{seed}", **kw)
        p = g.generate()
        if p["lines"]:
            return p
    raise AssertionError
