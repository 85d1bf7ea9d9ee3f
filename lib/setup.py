"""setup_cmd: build every driver from /repo's tree (each check rebuilds what it needs when the tree changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
try: core.drivers(*core.DRIVERS)
except core.CheckError as e: print(e); sys.exit(1)
print("built %d drivers" % len(core.DRIVERS))
