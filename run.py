#!/opt/venv/bin/python
"""run.py <property id>            decide the property on /repo's working tree (quick or thorough: VERIF_TIER)
   run.py --replay <file>         replay a recorded violation
   run.py --worker ...            internal"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
if __name__ == '__main__':
    from vlib import main
    sys.exit(main.main(sys.argv[1:]))
