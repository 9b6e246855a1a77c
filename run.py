#!/usr/bin/env python3
"""run.py <property id> [quick|thorough]: decide one property from /repo's current sources."""
import importlib, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'lib'))
sys.path.insert(0, os.path.join(V, 'checks'))
sys.dont_write_bytecode = True
import vlib, core


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == 'setup':
        print(vlib.ensure_tools())
        return 0
    try:
        return importlib.import_module(sys.argv[1].lower()).main()
    except vlib.Broken as e:
        print('analysis broken:', e)
        return 2


sys.exit(main())
