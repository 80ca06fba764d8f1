"""python3 /verif/check.py ID: runs the check of one property against /repo (VERIF_SEED, VERIF_TIER)."""
import importlib, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, HERE + '/fw']
from checks import registry
registry.run(sys.argv[1])
