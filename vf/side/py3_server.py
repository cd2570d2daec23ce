import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ["VERIF_REPO"]
sys.path.insert(0, here)
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
import common
import py3_ops
common.serve()
