"""Property id -> function deciding it."""

from . import motion

CHECKS = {p: motion.run for p in motion.PLAN}
CHECKS["C05"] = motion.run

TECHNIQUE = "TLA+ specification: TLC model checking, TLC-enumerated and random programs replayed into the code, traces validated by TLC"
NOTE = (
    "The explicit specification is model-checked exhaustively for small bounds; the code is bound to it by TLC "
    "validating recorded traces of enumerated and seeded random programs clause by clause. Bounded: programs outside "
    "the explored ones are not covered. Trusts TLC, the recorder and the numeric tolerances given in DESIGN.md."
)
NOTES = {}
NOT_APPLICABLE = {}
from . import reports  # noqa: E402

CHECKS["C18"] = reports.run_summary
CHECKS["C19"] = reports.run_layers
from . import traj  # noqa: E402

CHECKS["C16"] = traj.run_values
CHECKS["C17"] = traj.run_units
CHECKS["C20"] = traj.run_boxes
CHECKS["C21"] = traj.run_series
CHECKS["C25"] = traj.run_mesh
CHECKS["C26"] = traj.run_plots
CHECKS["C27"] = traj.run_width
CHECKS["C33"] = traj.run_blocks
from . import setups  # noqa: E402

CHECKS["C22"] = setups.run_setups
CHECKS["C23"] = setups.run_admission
from . import session  # noqa: E402

CHECKS["C24"] = session.run
from . import commands  # noqa: E402

CHECKS["C28"] = commands.run
from . import sym  # noqa: E402

CHECKS["C30"] = sym.run
from . import vectors  # noqa: E402

CHECKS["C31"] = vectors.run_vectors
CHECKS["C32"] = vectors.run_segments
from . import search  # noqa: E402

CHECKS["C34"] = search.run
from . import variations  # noqa: E402

CHECKS["C35"] = CHECKS["C36"] = CHECKS["C37"] = variations.run
from . import console  # noqa: E402

CHECKS["C38"] = console.run
