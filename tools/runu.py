"""run the proof units of one contract module: python3-vt tools/runu.py c01 [unit numbers] [-t secs]"""
import sys, time, faulthandler, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import importlib
from collections import Counter
from pyvc import engine
args = sys.argv[1:]
lim = 600
if '-t' in args:
    i = args.index('-t'); lim = int(args[i+1]); del args[i:i+2]
faulthandler.dump_traceback_later(lim, exit=True)
mod = importlib.import_module('contracts.' + args[0])
sel = args[1:]
for i, (n, u) in enumerate(mod.UNITS):
    if sel and str(i) not in sel:
        continue
    E = engine.Engine(deadline=time.time() + lim)
    t0 = time.time()
    try:
        r = E.explore(u)
    except BaseException as e:
        import traceback
        tb = traceback.format_exc()
        print('  EXC', type(e).__name__, str(e)[:600])
        print(tb[-1800:])
        r = None
    print(i, n, r, dict(Counter(o.status for o in E.obligs)), '%.1fs' % (time.time() - t0), E.stats.get('z3_calls'), flush=True)
    for o in E.obligs:
        if o.status != 'proved':
            print('   ', o.path, o.name, o.status, o.backend, o.note[:100], '%.1f' % o.secs)
            print('       ', str(o.goal)[:600])
