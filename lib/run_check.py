import importlib, os, sys
import common
pid = sys.argv[1]
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
for name in sorted(os.listdir(os.path.join(common.VERIF, "checks"))):
    if name.endswith(".py"):
        m = importlib.import_module(name[:-3])
        if pid in getattr(m, "CHECKS", {}):
            sys.exit(common.run(pid, m.CHECKS[pid]))
print("no check for", pid)
sys.exit(2)
