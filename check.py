#!/usr/bin/env python3
"""check.py <property>: run the check of one property (see DESIGN.md)."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ['VERIF_TIER'] = sys.argv[2]
    if prop != 'setup' and int(prop[1:]) in range(23, 41) and 'VF_PY' not in os.environ:
        os.environ['VF_PY'] = '1'
        os.execvp('python3-vt', ['/usr/local/bin/python3-vt'] + sys.argv)
    if 'VF_PY' in os.environ:
        from vlib import py_checks
        sys.exit(py_checks.CHECKS[prop]().main())
    from vlib import c_checks, csym
    if prop == 'setup':
        print(csym.engine())
        return
    sys.exit(c_checks.CHECKS[prop]().main())


main()
