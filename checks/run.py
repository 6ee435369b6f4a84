#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--seed N] [--cases N] [--cap SECONDS] [--replay FILE]"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.dont_write_bytecode = True
import engine


def main():
    pid = sys.argv[1]
    import props1
    table = dict(props1.ALL)
    try:
        import props2
        table.update(props2.ALL)
    except ImportError: pass
    if pid not in table: print("unknown property " + pid); return 2
    return engine.main(table[pid](), sys.argv[2:])


sys.exit(main())
