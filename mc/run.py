"""Entry point of every check:  run.py <PROPERTY> <quick|thorough> [--replay FILE] [-j N]

Exit 0 when the property held on everything explored, exit 1 with a line
``VIOLATION property=<id> replay=<path>`` otherwise.
"""

import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    args = sys.argv[1:]
    prop, tier = args[0], args[1] if len(args) > 1 and args[1][0] != "-" else "quick"
    seed = os.environ.get("VERIF_SEED", "1")
    seed = int(seed) if seed.isdigit() else 1
    # The iteration order of sets of labels depends on the hash seed: fix it so that
    # a run can be replayed.  The interpreter has to be restarted for that.
    want = str(seed % 4294967295)
    if os.environ.get("PYTHONHASHSEED") != want:
        env = dict(os.environ, PYTHONHASHSEED=want, PYTHONDONTWRITEBYTECODE="1")
        env.setdefault("MC_HASHSEED_SET", "1")
        os.execve(
            sys.executable, [sys.executable, os.path.abspath(__file__)] + args, env
        )
    sys.dont_write_bytecode = True
    sys.path.insert(0, VERIF)
    sys.path.insert(0, os.environ.get("MC_REPO", "/repo"))
    from mc import core

    sys.exit(core.main(prop, tier, seed, args))


if __name__ == "__main__":
    main()
