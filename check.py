#!/usr/bin/env python3
"""Run one property's static check:  check.py C01 [--tier quick|thorough]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(100000)
import threading
threading.stack_size(512 * 1024 * 1024)


def main():
    from sa.core import run
    pid = sys.argv[1]
    if pid == '--list':
        from sa import rules  # noqa: F401
        from sa.core import REGISTRY
        print(' '.join(REGISTRY))
        main.rc = 0
        return
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    main.rc = run(pid, tier)


main.rc = 2
t = threading.Thread(target=main)
t.start()
t.join()
sys.stdout.flush()
sys.exit(main.rc)
