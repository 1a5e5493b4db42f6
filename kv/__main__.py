import os
import sys

from . import core


def load():
    from . import registry

    return registry.PROPS


def main(argv):
    if len(argv) >= 2 and argv[0] == "replay":
        return core.replay(argv[1], load)
    if argv and argv[0] == "selftest":
        from . import selftest

        return selftest.main()
    if argv and argv[0] == "all":
        worst = 0
        for pid in load():
            worst = max(worst, core.run_property(pid, load))
        return worst
    only = argv[1] if len(argv) > 1 else None
    return core.run_property(argv[0], load, only)


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code) if code not in (0, 1, 2) else sys.exit(code)
