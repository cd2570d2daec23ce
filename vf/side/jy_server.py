import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ["VERIF_REPO"]
extra = os.environ.get("VF_JY_PATH")
sys.path.insert(0, here)
if extra:
    sys.path.insert(0, os.path.join(REPO, extra))
else:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
import common
import jy_ops
import jy_prims
common.serve()
