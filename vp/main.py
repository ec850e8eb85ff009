"""Command line of the checks."""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
# The directory of this script must not shadow other modules.
sys.path = [p for p in sys.path if os.path.abspath(p or ".") != os.path.dirname(os.path.abspath(__file__))]

from vp import engine  # noqa: E402


def main(argv):
    if argv[:1] == ["--worker"]:
        engine.worker_main(argv[1:])
        return 0
    if argv[:1] == ["--probe"]:
        engine.probe_main(*argv[1:])
        return 0
    if argv[:1] == ["--replay"]:
        return engine.replay_main(argv[1])
    if len(argv) != 1:
        print("usage: check PROPERTY | check --replay FILE", file=sys.stderr)
        return 2
    return engine.check_main(argv[0])


if __name__ == "__main__":
    try:
        status = main(sys.argv[1:])
    except Exception:
        import traceback

        traceback.print_exc()
        status = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(status)
