import os
import sys

sys.dont_write_bytecode = True
sys.setrecursionlimit(5000)


def main(argv):
    from . import core

    for f in (sys.stdout, sys.stderr):  # messages may contain lone surrogates
        f.reconfigure(errors="backslashreplace")

    if argv[0] == "--worker":
        prop, tier, seed, index, n, out = argv[1:7]
        core.worker(prop, tier, int(seed), int(index), int(n), out)
        return 0
    prop = argv[0]
    if len(argv) > 2 and argv[1] == "--replay":
        return core.main_replay(prop, os.path.abspath(argv[2]))
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    return core.main_check(prop, tier, seed)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
