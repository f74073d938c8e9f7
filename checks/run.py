import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine.check import Check
pid = sys.argv[1]
c = Check(pid)
try: m = importlib.import_module('checks.' + pid)
except Exception:
    import traceback
    c.failed.append(('check could not be loaded', traceback.format_exc()))
    if c.verbose: traceback.print_exc()
    sys.exit(c.finish())
c.run(m.main)
