#!/usr/bin/env python3
"""check.py <property> <quick|thorough>"""
import importlib, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import lib

for _stream in (sys.stdout, sys.stderr):
    _stream.reconfigure(errors="backslashreplace")


def main():
    ident, tier = sys.argv[1], sys.argv[2]
    ck = None
    real = lib.Check.__init__
    made = []

    def init(self, *a, **k):
        made.append(self)
        real(self, *a, **k)

    lib.Check.__init__ = init
    try:
        _, code = importlib.import_module(ident.lower()).main(tier)
        return code
    except lib.BrokenCheck as e:
        print(f"error: {e}", file=sys.stderr)
        return 2
    finally:
        for c in made:
            if hasattr(c, "area"):
                c.area.remove()


sys.exit(main())
