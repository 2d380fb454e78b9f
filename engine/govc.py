"""command line: python govc.py DUMP fn...   (development)"""
import sys, os, time, json, importlib.util, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import core, execu, spec, models
from core import *


def load_contracts():
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'contracts')
    sys.path.insert(0, d)
    for f in sorted(glob.glob(d + '/*.py')):
        importlib.import_module(os.path.basename(f)[:-3])
    return spec.REG


def engine(dumpfile):
    eng = execu.Engine(json.load(open(dumpfile)))
    models.install(eng)
    eng.contracts = dict(spec.REG)
    eng.T.value_structs = {'oidfed.trustTree'}
    return eng


if __name__ == '__main__':
    dump = sys.argv[1]
    regs = load_contracts()
    for name in sys.argv[2:]:
        for fn, c in regs.items():
            if name != c.short and name != fn and name not in c.props: continue
            eng = engine(dump)
            eng.verbose = True
            t0 = time.time()
            obls = spec.verify(eng, c, time.time() + 300)
            nf = [o for o in obls if o.status != 'proved']
            print('%-50s %3d obligations %3d failed  %.1fs (solver %.1fs) loops %s' % (c.short, len(obls), len(nf), time.time() - t0, eng.solver_s, eng.loop_stats))
            for o in nf: print('   FAILED %s: %s @%s  %s' % (o.kind, o.name, o.pos, o.info[:1500 if o.kind=='reach' else 100]))
