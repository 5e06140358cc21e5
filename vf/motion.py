"""Checks of the properties about programs and their motion (C01 - C15, C29)."""

import json
import math
import random
import re

from . import core, gen, programs
from .core import THOROUGH

MODAL = [
    "G90",
    "G91",
    "M82",
    "M83",
    "G92 X10 E0",
    "G92 Y-2.5 Z1",
    "G92 E3.25",
    "G1 X10 E1",
    "G0 Y3 Z-.5 E.25",
    "G1 X-4.125 Y2 F1200",
    "G1 E-1.5",
    "G20",
    "G21",
]
END_MODAL = ["G1 X7.77 Y6.5 Z1.25 E4.5"]
SETTINGS = [
    "M204 P500",
    "M204 T700",
    "M205 X2",
    "M205 Y9",
    "M203 X99 E5",
    "G1 X10 F1200",
    "G1 Y3",
    "G0 F2400",
    "G92 X1",
    "M83",
    "G28",
    "M104 S200",
]
INERT = [
    "G28",
    "G29 P1",
    "G28 G29",
    "G2 X5 Y5 I1 J2",
    "G10",
    "G12",
    "G17",
    "M106 S255",
    "G30 X1 Y2",
    "G92.1",
    "M117 G1 X3",
    "; G28",
    "G1 X10 E1",
    "G1 Y4 F900",
]
DWELL = ["G4 P200", "G4 S1", "G4 P0", "G4", "G1 X10", "G1 Y4", "G1 E1", "G1 X-5 F600", "M204 P200", "G04 S.5"]
CUES = [
    ";" + gen.CUE,
    "; " + gen.CUE + "  ",
    "G1 X10 ;" + gen.CUE,
    ";" + gen.CUE + "S",
    ";;" + gen.CUE,
    "",
    "G1 Y3",
    "G28 ; x",
    "M117 " + gen.CUE,
    "G4 P5;" + gen.CUE,
]
CORNER = [
    "G1 X10",
    "G1 X20 Y10",
    "G1 Y-5",
    "G1 X-3 F600",
    "G1 X0 Y0 Z1",
    "G1 X12 Y2 E1",
    "G1 E3",
    "G1 Z2",
    "G1 X10.2",
    "M205 X2",
    "M204 P100",
    "G4 P10",
    "M205 X3 G1 Y5",
    "G1 X8 Y8 M204 P300",
]


def enum(check, name, alphabet, depth, thorough_depth, quick_limit=2500, thorough_limit=30000, **kw):
    d = thorough_depth if THOROUGH else depth
    return programs.enumerate_programs(
        check, name, alphabet, d, limit=thorough_limit if THOROUGH else quick_limit, **kw
    )


PLANNING = [
    "G1 X.05",
    "G1 X.8",
    "G1 X10",
    "G1 X.05 F600",
    "G1 X.4 F3000",
    "G1 X10 F6000",
    "G1 Y.1",
    "G1 Y5 E.2",
    "G1 E1",
    "G4 P5",
    "M204 P200",
    "G1 X-.3",
]


# ------------------------------------------------------------------ chains of blocks explored by the model of the planner
PLANNER_INV = "Modelled Continuous StartsAtRest ReachesPlan PlanFeasible PlanGreatest Leaf"


def chain_program(name, blocks):
    """The program of a chain of blocks <<T^2, corner limit, 2 a d>> (squared speeds in units of 10 mm/s):
    zigzag moves whose corners have the limit because of the jerk value (junction deviation, 90 degrees)."""
    p = gen.base(None, name, "blocks", "marlin_jd")
    p["id"] = "blocks-" + name
    lines = ["G91", "M83"]
    sign = {"X": 1, "Y": 1}
    for n, (T2, lim, g) in enumerate(blocks):
        a = "XY"[n % 2]
        if n % 4 in (0, 1):
            sign[a] = 1 if n % 3 else -1
        if T2 == 0:
            lines.append("G1 E1" if n % 2 else "G4 P3")
            continue
        s = math.sqrt(0.5)
        jerk = 10 * math.sqrt(lim / (0.4 * s / (1 - s)))
        if lim >= T2:
            jerk *= 2
        lines.append(
            "M205 X%.6f G1 %s%s F%s" % (jerk, a, gen.dec(sign[a] * g * 5, 2), gen.dec(round(math.sqrt(T2) * 600 * 10**4), 4))
        )
    if all(b[0] == 0 for b in blocks):
        lines.append("G1 X1")
    p["lines"] = lines
    return p


def planner(check):
    n, T, L, G = (4, (1, 4), (0, 1, 4), (1, 3)) if THOROUGH else (3, (1, 4), (0, 1, 4), (1, 2, 3))
    consts = [f"CONSTANT N = {n}", "CONSTANT Export = TRUE"] + [
        f"CONSTANT {k} = {{{', '.join(map(str, v))}}}" for k, v in dict(Targets=T, Limits=L, Gains=G).items()
    ]
    cfg = "\n".join(["SPECIFICATION Spec"] + consts + [f"INVARIANT {x}" for x in PLANNER_INV.split()])
    cfg += "\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\n"
    ok, st, out = core.model_check("MC_Planner", cfg)
    check.model("MC_Planner", ok, st, PLANNER_INV + " Terminates", out)
    chains = sorted(json.loads(x) for x in set(re.findall(r'<<"VF-CASE", "(.*?)">>', out)))
    assert len(chains) == (len(T) * len(L) * len(G) + 1) ** n, len(chains)
    r = random.Random(core.SEED)
    chains = r.sample(chains, 12000 if THOROUGH else 900)
    progs = [chain_program(f"{k}", c) for k, c in enumerate(chains)]
    for k in range(2000 if THOROUGH else 150):  # longer ones
        one = lambda: (0, 0, 0) if r.random() < 0.06 else (r.choice([1, 2, 4, 9]), r.choice([0, 1, 2, 3, 4, 9]), r.choice([1, 1, 2, 3, 4, 9, 20]))  # noqa: E731
        progs.append(chain_program(f"r{k}", [one() for _ in range(r.randint(4, 14))]))
    programs.check_programs(check, progs)


# ------------------------------------------------------------------ corners explored by the model of the corner laws
JUNCTION_INV = (
    "Bounded FullStop ReversalStops StraightPasses SquareCorner MKAJumps MoreJerkIsFaster ExtruderIrrelevant "
    "Monotone Reversible Leaf"
)


def corner_program(n, c):
    p = gen.base(None, str(n), "corners", None if c["fw"] == "none" else c["fw"])
    p["id"] = f"corner-{n}"
    lines = ["G91", "M83", "M204 P2000", f"M205 X{c['j']}"]
    for k in (0, 1):
        s = c["s"][k]
        words = "".join(a + gen.dec(d * s, 2) for a, d in zip("XYZ", c["d"][k]) if d)
        if c["e"][k]:
            words += "E" + gen.dec(c["e"][k] * s, 3)
        lines.append(f"G1 {words} F{60 * c['T'][k]}")
    p["lines"] = lines
    return p


def junction(check):
    cfg = (
        f"SPECIFICATION Spec\nCONSTANT Export = TRUE\nCONSTANT Rich = {str(THOROUGH).upper()}\n"
        + "".join(f"INVARIANT {x}\n" for x in JUNCTION_INV.split())
        + "CHECK_DEADLOCK FALSE\n"
    )
    ok, st, out = core.model_check("MC_Junction", cfg)
    check.model("MC_Junction", ok, st, JUNCTION_INV, out)
    cases = sorted(set(re.findall(r'<<"VF-CASE", "(.*?)">>', out)))
    assert len(cases) > 10000, len(cases)
    cases = [json.loads(x.replace('\\"', '"')) for x in cases]
    cases = random.Random(core.SEED).sample(cases, 16000 if THOROUGH else 1500)
    programs.check_programs(check, [corner_program(n, c) for n, c in enumerate(cases)])


# ------------------------------------------------------------------ layouts explored by the model of the reader
LEXER_INV = "Understood SameAsPlain NothingFromComments OrderIrrelevant NeverConfused Leaf"


def lexer(check):
    keep = 10 if THOROUGH else 97
    cfg = (
        f"SPECIFICATION Spec\nCONSTANT Export = TRUE\nCONSTANT Rich = {str(THOROUGH).upper()}\n"
        + f"CONSTANT Keep = {keep}\nCONSTANT Phase = {core.SEED % keep}\n"
        + "".join(f"INVARIANT {x}\n" for x in LEXER_INV.split())
        + "CHECK_DEADLOCK FALSE\n"
    )
    ok, st, out = core.model_check("MC_Lexer", cfg)
    check.model("MC_Lexer", ok, st, LEXER_INV, out)
    found = re.findall(r'<<\s*"VF-LINE",\s*<<([\d,\s]*)>>\s*>>', out)
    lines = sorted({"".join(chr(int(x)) for x in m.split(",")) for m in found if m.strip()})
    assert len(lines) > 1500, len(lines)
    r = random.Random(core.SEED)
    lines = r.sample(lines, min(len(lines), 24000 if THOROUGH else 1600))
    progs = []
    for n, t in enumerate(lines):
        p = gen.base(None, str(n), "layout", None)
        p.update(id=f"layout-{n}", lines=["G91", t, "G1 X3.3 Y4.4"], init=(1, -2, 0, 0.5), newline=("\n", "\r\n")[n % 2], final=n % 3 > 0)
        progs.append(p)
    programs.check_programs(check, progs, instants=False)


# property -> (random profiles, enumerations)
FW = ("marlin_jd", "klipper", "marlin_jerk", "MKA", None)
PLANS = ("planning", PLANNING, 3, 4, dict(prefix=["G91", "M83"], suffix=["G1 X.3"], fws=FW))
PLAN = {
    "C01": ({"modal": 260, "rich": 160}, [("modal", MODAL, 3, 4, dict(suffix=END_MODAL))]),
    "C02": ({"g92": 300, "modal": 120}, [("g92", MODAL, 3, 4, dict(suffix=END_MODAL))]),
    "C03": ({"settings": 300, "rich": 120}, [("settings", SETTINGS, 3, 4, dict(suffix=["G1 X3.3 Y4.4"]))]),
    "C04": ({"units": 300, "modal": 120}, [("units", MODAL, 3, 4, dict(suffix=END_MODAL))]),
    "C05": ({"text": 420, "inert": 60}, []),
    "C06": ({"layers": 300, "rich": 120}, [("cues", CUES, 3, 4, dict(suffix=["G1 X3.3"], cue=gen.CUE))]),
    "C07": ({"inert": 320, "rich": 100}, [("inert", INERT, 3, 4, dict(suffix=["G1 X3.3 Y4.4 ; G28"]))]),
    "C08": ({"motion": 200, "rich": 160, "dwell": 60}, [("modal", MODAL, 3, 4, dict(suffix=END_MODAL, fws=FW))]),
    "C09": ({"motion": 200, "rich": 120, "dwell": 80, "chain": 12, "touch": 30, "ramp": 3}, [PLANS, ("corner", CORNER, 3, 4, dict(suffix=["G1 X3 Y4"], fws=FW))]),
    "C10": ({"motion": 260, "rich": 160}, [("corner", CORNER, 3, 4, dict(suffix=["G1 X3 Y4"], fws=FW))]),
    "C11": ({"motion": 260, "settings": 120, "corners": 100, "changing": 80}, [("corner", CORNER, 3, 4, dict(suffix=["G1 X3 Y4"], fws=FW))]),
    "C12": ({"motion": 220, "dwell": 70, "corners": 140, "chain": 25, "touch": 50, "ramp": 6, "stops": 30, "changing": 60}, [PLANS, ("corner", CORNER, 3, 4, dict(suffix=["G1 X3 Y4"], fws=FW))]),
    "C13": ({"corners": 420, "motion": 120, "chain": 12, "stops": 60, "changing": 150}, [("corner", CORNER, 3, 4, dict(suffix=["G1 X3 Y4"], fws=FW))]),
    "C14": ({"corners": 180, "motion": 220, "chain": 25, "touch": 80, "ramp": 6, "stops": 40, "changing": 80}, [PLANS, ("corner", CORNER, 3, 4, dict(suffix=["G1 X3 Y4"], fws=FW))]),
    "C15": ({"dwell": 360, "rich": 60}, [("dwell", DWELL, 3, 4, dict(suffix=["G1 X3 Y4"], fws=FW))]),
    "C29": ({"rich": 200, "motion": 160, "corners": 100, "dwell": 60, "text": 60, "chain": 60, "touch": 1500, "ramp": 12, "stops": 60, "changing": 80}, [PLANS, ("corner", CORNER, 3, 4, dict(suffix=["G1 X3 Y4"], fws=FW))]),
}


def run(check):
    mix, enums = PLAN[check.prop]
    for name, alphabet, d, td, kw in enums:
        progs = enum(check, name, alphabet, d, td, **kw)
        programs.check_programs(check, progs)
    if check.prop in ("C09", "C12", "C14", "C29"):
        planner(check)
    if check.prop == "C05":
        lexer(check)
    if check.prop == "C13":
        junction(check)
    programs.check_programs(check, programs.random_programs(mix, 12 if THOROUGH else 1))
