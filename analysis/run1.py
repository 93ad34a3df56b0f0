"""Replay one driver against the current tree: run1.py <driver file> <spec module> <drv_function> [deep]
Prints every violated rule with its location, call stack and an example of the inputs."""
import sys, os, tempfile, importlib, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, check
from engine import Module
def main():
    cpp, spec, fn = sys.argv[1:4]
    if 'deep' in sys.argv: build.CFLAGS.append('-DDEEP')
    big = int(os.environ.get('BIG') or 0)
    if big: build.CFLAGS.append('-DBIG=%d' % big)
    with tempfile.TemporaryDirectory(prefix='vlpp-replay-') as wd:
        mod = Module(build.compile_json(os.path.join(build.HERE, 'drivers', os.path.basename(cpp)), wd))
    r = check.run_driver(mod, importlib.import_module(spec), fn, 300, big).rep
    print('%s ends=%s obligations=%d checks=%s' % (fn, r.ends, sum(r.discharged.values()), r.checks))
    for k, d in r.undecided.items(): print('  undecided', k, json.dumps(d)[:300])
    seen = set()
    for v in r.viol:
        k = (v['rule'], v['msg'], v['loc'])
        if k in seen: continue
        seen.add(k); print('  VIOLATED %s: %s at %s\n     example %s\n     stack %s' % (v['rule'], v['msg'], v['loc'], str(v.get('witness'))[:400], v.get('stack')))
    return 1 if r.viol else 0
if __name__ == '__main__': sys.exit(main())
