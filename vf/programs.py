"""Recording many programs in parallel and checking their traces against module Run."""

import itertools
import json
import multiprocessing
import pathlib
import random
import re
import shutil
import tempfile

from . import core, gen, record

_recorder = None


def _work(args):
    fn, p, kw = args
    d = tempfile.mkdtemp(prefix="rec_", dir=core.scratch())
    try:
        return fn(p, pathlib.Path(d), **kw)
    except Exception as e:  # noqa: B902 - a result of the code under test that cannot even be read
        return [{"e": "crash", "id": p["id"], "err": "unreadable result: " + type(e).__name__ + " " + str(e)[:150]}]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def record_all(programs, fn=None, **kw):
    """[(id, events)] of the programs, recorded by fn(program, folder)."""
    fn = fn or record.record
    core.scratch()
    record.mods()  # import once, before forking
    jobs = [(fn, p, kw) for p in programs]
    if len(jobs) < 8:
        return [(p["id"], _work(j)) for p, j in zip(programs, jobs)]
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(core.JOBS) as pool:
        evs = pool.map(_work, jobs, chunksize=max(1, len(jobs) // (core.JOBS * 8)))
    return [(p["id"], e) for p, e in zip(programs, evs)]


def random_programs(mix, scale=1, **kw):
    """mix: {profile: count}."""
    res = []
    for profile, n in mix.items():
        for i in range(int(n * scale)):
            res.append(gen.program(core.SEED * 1000003 + i, profile, **kw))
    return res


# ------------------------------------------------------------------ programs enumerated by TLC
G_PROPS = "OnlyMotionMoves SetPositionReads OriginOnlyBySetPosition UnnamedAxesStay SettingsBySetters ModesByModes Inert"
ENUM_SETUP = dict(p_vel=35, p_acc=1000, jerk=10, vX=180, vY=180, vZ=30, vE=33)
START = (1, -2, 0, 0.5)


def enumerate_programs(check, name, alphabet, depth, suffix=(), fws=("marlin_jd",), prefix=(), cue=None, limit=None):
    """Model-check the machine on all sequences of lines of the alphabet and return these programs."""
    f = core.scratch() / f"alphabet_{name}.json"
    f.write_text(json.dumps([core.codes(x) for x in alphabet]))
    cfg = (
        f"SPECIFICATION Spec\nCONSTANT Depth = {depth}\nCONSTANT Export = TRUE\nINVARIANT Refines\nINVARIANT Leaf\n"
        + "".join(f"PROPERTY {x}\n" for x in G_PROPS.split())
        + "CHECK_DEADLOCK FALSE\n"
    )
    ok, st, out = core.model_check("MC_Gcode", cfg, env={"VF_ALPHABET": str(f)})
    check.model(f"MC_Gcode/{name}", ok, st, "Refines " + G_PROPS, out)
    seqs = [
        [int(x) - 1 for x in m.group(1).split(",")] for m in re.finditer(r'<<"VF-PROGRAM", <<([\d, \n]+)>>', out)
    ]
    assert len(seqs) == len(alphabet) ** depth, (len(seqs), len(alphabet), depth)
    seqs.sort()
    if limit and len(seqs) > limit:
        seqs = random.Random(core.SEED).sample(seqs, limit)
    res = []
    for n, s in enumerate(seqs):
        res.append(
            dict(
                id=f"{name}-" + ".".join(map(str, s)),
                lines=list(prefix) + [alphabet[i] for i in s] + list(suffix),
                newline="\n",
                final=True,
                setup=dict(ENUM_SETUP),
                fw=fws[n % len(fws)],
                init=START,
                cue=cue,
            )
        )
    return res


def check_programs(check, progs, sel=None, batch=3000, instants=True, heap="2g"):
    """Run the programs through the real code and check the traces for the clauses of the property."""
    sel = sel or [check.prop]
    byid = {p["id"]: p for p in progs}
    assert len(byid) == len(progs)
    for k in range(0, len(progs), batch):
        part = progs[k : k + batch]
        traces = record_all(part, instants=instants)
        bad, st = core.validate("Run", traces, sel, heap=heap)
        check.traces(st, [sample(p) for p in random.Random(k).sample(part, min(2, len(part)))] if k == 0 else [])
        for clause, pid, where in bad:
            p = byid[pid]
            line = p["lines"][where - 1] if 0 < where <= len(p["lines"]) else ""
            check.violation(
                clause,
                f"program {pid} ({p['fw']}) line {where}: {line!r}",
                dict(program=p, line=where, known=p.get("known")),
            )


def sample(p):
    return {"id": p["id"], "firmware": p["fw"], "gcode": p["lines"][:30]}
