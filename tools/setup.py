import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
try:
    names = ["mon-sse2", "mon-fuzz"]
    vlib.build_all(names)
except vlib.Inconclusive as e:
    print(e)
    sys.exit(3)
