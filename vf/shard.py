import sys
from vf.core import shard_main
sys.exit(shard_main(sys.argv[1:]))
