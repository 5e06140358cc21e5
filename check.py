#!/opt/venv/bin/python
"""Decide one property: check.py <property id>."""

import sys
import traceback

sys.dont_write_bytecode = True

from vf import core, registry  # noqa: E402


def main():
    prop = sys.argv[1]
    check = core.Check(prop)
    try:
        registry.CHECKS[prop](check)
        return check.finish()
    except core.TlcError as e:
        print(f"CHECK ERROR: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        core.cleanup()


if __name__ == "__main__":
    sys.exit(main())
