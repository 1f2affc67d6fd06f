"""python3 -m sa.run <property id> [quick|thorough]"""
import os
import sys

from .frame import run_check
from . import checks


def main(argv):
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    fn, expl = checks.get(pid)
    return run_check(pid, fn, tier if tier in ("quick", "thorough") else "quick", expl)


if __name__ == "__main__":
    sys.exit(main(sys.argv))
