"""Usage: drive.py MODULE PROPERTY TIER SEED OUT - run the scenarios of one property on the real code."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo') + '/src')
sys.dont_write_bytecode = True

import rec


def main():
    module, prop, tier, seed, out = sys.argv[1:6]
    r = rec.Recorder(out, tier, int(seed))
    getattr(importlib.import_module(module), prop)(r)
    r.close()
    print('EVENTS', r.n, 'SESSIONS', r.session)


main()
