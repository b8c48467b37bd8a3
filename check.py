#!/opt/veriftools/pyvenv/bin/python
"""check.py <ID> [quick|thorough]   |   check.py <ID> --replay FILE"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, 'lib'))
import driver
if sys.argv[1] == '--shard':
    a = sys.argv[2:]
    driver.run_shard(a[0], a[1], int(a[2]), int(a[3]), int(a[4]), a[5])
else:
    try:
        rc = driver.main(sys.argv[1:])
    except Exception:
        import traceback; traceback.print_exc()
        rc = 2
    sys.exit(rc)
