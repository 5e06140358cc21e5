"""Evidence records."""

from . import core

ASSUMPTIONS = [
    "TLC evaluates the specifications correctly; arithmetic in the specification is decimal floating point with nine digits, compared with relative tolerances of 1e-6 to 2e-5",
    "programs stay inside the domain described in DESIGN.md (well-formed supported commands, coordinates within 900 mm)",
]


def evidence(check, violations, wall, known):
    cov = dict(check.cover)
    cov["samples"] = check.samples[:6] or ["no implementation trace"]
    if check.notes:
        cov["notes"] = check.notes
    if known:
        cov["known_findings"] = known
    return {
        "property": check.prop,
        "tier": "thorough" if core.THOROUGH else "quick",
        "seed": core.SEED,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": violations,
    }
