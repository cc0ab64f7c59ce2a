"""mutrun.py PROPERTY: the native search of every contract, until one fails.
With PYVC_COVER=FILE, the lines of pyslet that run are written to FILE."""
import importlib
import os
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
if os.environ.get('PYVC_COVER'):
    seen = open(os.environ['PYVC_COVER'], 'a')
    mon = sys.monitoring
    mon.use_tool_id(3, 'cover')

    def line(code, n):
        if '/repo/pyslet/' in code.co_filename:
            seen.write('%s:%i\n' % (code.co_filename, n))
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    import atexit
    atexit.register(seen.flush)
from pyvc import run                                            # noqa
mod = importlib.import_module('contracts.' + sys.argv[1])
sys.setrecursionlimit(12000)
import resource                                                 # noqa
resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
for secs in ((8,) if os.environ.get('PYVC_COVER') else (1, 12)):
    for p in mod.PROOFS:
        if p.native and not p.thorough_only:
            t = time.time()
            s = run.search(p, 'quick', '1', secs)
            if s['failures']:
                print('CAUGHT', p.name, str(s['failures'][0])[:300])
                sys.stdout.flush()
                os._exit(1)
print('SURVIVED')
