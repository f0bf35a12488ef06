#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's working tree. VERIF_TIER and VERIF_SEED apply."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
try:
    import props
    props.PROPS[sys.argv[1]]()
except SystemExit: raise
except BaseException:
    traceback.print_exc()
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(2)
