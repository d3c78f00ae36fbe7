#!/usr/bin/env python3
"""check.py C01 [--thorough] [--strict] [-v]: decide one property from /repo's source."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True

from qmsa import check  # noqa: E402


def main(argv):
    prop = argv[0]
    m = importlib.import_module("rules." + prop.lower())
    return check.run(prop, m.rules, m.LEVEL_NOTE, argv[1:], getattr(m, "FLOOR", 1))


if __name__ == "__main__":
    import threading

    threading.stack_size(512 * 1024 * 1024)
    rc = [4]

    def go():
        try:
            rc[0] = main(sys.argv[1:])
        except SystemExit as e:
            rc[0] = e.code
        except BaseException:
            import traceback

            traceback.print_exc()
            rc[0] = 4

    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
