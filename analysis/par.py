"""dev: run drivers of a TU in parallel, print problems only.  par.py cpp spec [regex] [budget]"""
import sys, os, re, multiprocessing as mp, time
sys.path.insert(0, '/verif/analysis')
import check, build
from engine import Module
cpp, spec = sys.argv[1:3]; rx = sys.argv[3] if len(sys.argv) > 3 else '.*'; bud = float(sys.argv[4]) if len(sys.argv) > 4 else 60
if os.environ.get('DEEP'): build.CFLAGS.append('-DDEEP')
if os.environ.get('BIG'): build.CFLAGS.append('-DBIG=' + os.environ['BIG'])
os.makedirs(os.environ.get('W','/tmp/w/j'), exist_ok=True)
big = int(os.environ.get('BIG') or 0)
check.MODS[cpp, big] = Module(build.compile_json('/verif/analysis/drivers/' + cpp, os.environ.get('W','/tmp/w/j')))
jobs = [(cpp, spec, f, bud, big) for f, d in check.MODS[cpp, big].funcs.items() if f.startswith('drv_') and 'blocks' in d and re.match(rx, f[4:])]
tot=[0,0]
with mp.get_context('fork').Pool(8, maxtasksperchild=1) as p:
    for r in p.imap(check.work, jobs):
        fl = ' '.join(k for k in r['loops'] if any('over' in h or 'undec' in h for h in r['loops'][k]))
        tot[0]+=1; tot[1]+=sum(r['ok'].values())
        if r['und'] or r['viol'] or fl or not r['checks'] or r['t']>10 or '-v' in sys.argv: print('%-28s %.1fs ends=%s ok=%d checks=%s %s' % (r['fn'], r['t'], r['ends'], sum(r['ok'].values()), r['checks'], ('OVERLOOP ' + fl[:200]) if fl else ''))
        for k, d in r['und'].items():
            for w, n in list(d.items())[:6]: print('      UND', k, w[:300], n)
        seen = set()
        for v in r['viol']:
            k = (v['rule'], v['msg'], v['loc'])
            if k in seen: continue
            seen.add(k)
            if len(seen) <= 4: print('      VIOL', v['rule'], v['msg'][:200], '@', v['loc'], str(v['witness'])[:160])
        if len(seen) > 4: print('      ... %d violations' % len(seen))
print('drivers',tot[0],'ok',tot[1])
