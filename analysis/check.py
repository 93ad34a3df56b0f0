#!/usr/bin/env python3
"""check.py <property> [quick|thorough] : decide one property on /repo's current working tree.

Exit 0: no violation (undecided obligations are counted in the evidence).  Exit 1: VIOLATION line.  Exit 2: the
analysis itself is broken (the drivers do not compile against the tree, or no obligation could be decided).
"""
import sys, os, time, json, re, tempfile, shutil, importlib, multiprocessing as mp, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build, engine, hooks
from engine import Engine, Module, State, TimeUp, short
import props, consts

MODS = {}; END = [float('inf')]  # no analysis runs past END
def run_driver(mod, spec, fn, budget, big=0):
    e = run_once(mod, spec, fn, budget, big=big)
    over = {n for n, d in e.rep.loops.items() if any(h not in ('no back edge', 'bounded', 'affine A', 'affine B', 'peeled') for h in d)}
    if e.rep.undecided and over and not e.rep.viol:
        # an over-approximated loop left something open: look for an exact counterexample in its first iterations
        x = run_once(mod, spec, fn, min(budget, 60), over, big)
        for v in x.rep.viol: e.rep.viol.append(v)
        e.rep.loops['(exact iterations explored for undecided obligations)'] = {n: x.unroll_depth for n in over}
    return e
def run_once(mod, spec, fn, budget, unroll=(), big=0):
    cls = getattr(spec, 'EngineClass', None) or getattr(spec, 'PtrEngine', Engine)
    e = cls(mod, spec.models)
    e.patterns = list(getattr(spec, 'patterns', [])) + hooks.PATS + e.patterns
    e.unroll = unroll
    if big: e.small_loops = max(e.small_loops, 48 + 12 * big); e.max_rec = big + 8
    st = State()
    if hasattr(spec, 'init'): spec.init(e, st)
    e.push(st, fn, [], None)
    t = time.time(); e.deadline = t + budget
    def run():
        try: yield from e.run([st])
        except TimeUp: e.rep.undecided.setdefault('path', {})['time budget'] = 1
    for s in run():
        k = s.done[0] if s.done else '?'
        if k == 'throw':
            e.violation(s, 'escape', 'an exception other than Error, or an unexpected Error, leaves the operation')
        e.rep.ends[k] = e.rep.ends.get(k, 0) + 1
    return e
def work(job):
    cpp, specname, fn, budget = job[:4]; big = job[4] if len(job) > 4 else 0
    t = time.time(); budget = min(budget, max(1, END[0] - t))
    try:
        mod = MODS[cpp, big]; spec = importlib.import_module(specname)
        r = run_driver(mod, spec, fn, budget, big).rep
        return dict(fn=fn, cpp=cpp, spec=specname, big=big, viol=r.viol, und=r.undecided, ok=r.discharged, ends=r.ends, insts=r.insts, forks=r.forks, loops=r.loops, checks=r.checks,
                    funcs=sorted(short(mod.funcs[f]['dem']) for f in r.funcs if '/Source/' in str(srcfile(mod, f))), t=time.time() - t)
    except Exception:
        return dict(fn=fn, cpp=cpp, spec=specname, big=big, viol=[], und={'engine': {traceback.format_exc()[-600:]: 1}}, ok={}, ends={}, insts=0, forks=0, loops={}, checks={}, funcs=[], t=time.time() - t)
def srcfile(mod, f):
    for b in mod.funcs[f].get('blocks', ()):
        for i in b:
            if i.get('loc'): return i['loc'][0]
    return ''
def compile_one(a):
    cpp, wd, big = a
    if big: wd = os.path.join(wd, 'big%d' % big); os.makedirs(wd, exist_ok=True)
    try: return cpp, big, build.compile_json(os.path.join(HERE, 'drivers', cpp), wd, ['-DBIG=%d' % big] if big else ()), None
    except build.BuildError as x: return cpp, big, None, str(x)
def sizes(cpps, tier):
    """sizes of the long-sequence drivers: a fixed one, and one just above every constant the library compares something with"""
    lim = 1030
    out = {c: props.SIZES.get(c, {18}) | (set() if tier == 'quick' else {70}) for c in cpps}
    for c in cpps:
        base = props.CONSTANTS.get(c, ())
        ks = sorted(k for k, w in consts.constants(MODS[c, 0]).items() if 16 < k <= lim and k not in base)
        out[c] |= {k + 2 for k in ks[:3]}
    return [(c, b) for c in cpps for b in sorted(out[c])]
def load_known():
    p = os.path.join(ROOT, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': []}
def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    prop = props.PROPS[pid]
    t0 = time.time(); wd = tempfile.mkdtemp(prefix='vlpp-%s-' % pid)
    try: return decide(pid, prop, tier, t0, wd)
    finally: shutil.rmtree(wd, ignore_errors=True)
def decide(pid, prop, tier, t0, wd):
    build.tool()
    if tier == 'thorough': build.CFLAGS.append('-DDEEP')
    cpps = sorted({g[0] for g in prop.get('drivers', [])})
    broken = []
    with mp.Pool(min(8, len(cpps) or 1)) as pool:
        for cpp, big, j, err in pool.map(compile_one, [(c, wd, 0) for c in cpps]):
            if err: broken.append(err)
            else: MODS[cpp, 0] = Module(j)
        bigs = sorted({g[0] for g in prop.get('big', [])})
        if bigs and not broken:
            for cpp, big, j, err in pool.map(compile_one, [(c, wd, b) for c, b in sizes(bigs, tier)]):
                if err: broken.append(err)
                else: MODS[cpp, big] = Module(j)
    if broken:
        print('ANALYSIS BROKEN: driver does not compile against the current tree\n' + '\n'.join(broken)[:4000]); return 2
    jobs = []; sel = {}
    budget = 100 if tier == 'quick' else 700
    END[0] = t0 + (600 if tier == 'quick' else 3 * 3600)
    plan = [(g, 0) for g in prop.get('drivers', [])] + [(g, b) for g in prop.get('big', []) for (c, b) in MODS if c == g[0] and b]
    for g, big in plan:
        cpp, spec, rx = g[:3]; rules = g[3] if len(g) > 3 else None
        n = 0
        for fn, d in MODS[cpp, big].funcs.items():
            if fn.startswith('drv_') and 'blocks' in d and re.match(rx, fn[4:]):
                n += 1; k = (cpp, big, fn)
                if k not in sel: jobs.append((cpp, spec, fn, budget, big)); sel[k] = rules
                elif sel[k] is not None: sel[k] = None if rules is None else sel[k] | rules
        if n == 0: print('ANALYSIS BROKEN: no driver matches %s in %s' % (rx, cpp)); return 2
    res = []
    if jobs:
        ctx = mp.get_context('fork')
        with ctx.Pool(8, maxtasksperchild=1) as pool: res = pool.map(work, jobs, chunksize=1)
    viols = []; seen = set()
    for r in res:
        rules = sel[r['cpp'], r['big'], r['fn']]
        for v in r['viol']:
            if rules is not None and v['rule'] not in rules: continue
            k = (v['rule'], v['msg'], v['loc'])
            if k in seen: continue
            seen.add(k); viols.append(dict(v, driver=r['fn'], cpp=r['cpp'], spec=r['spec'], big=r['big']))
    extra_cov = {}
    for f in prop.get('extra', []):
        vs, cov = f(wd)
        viols += vs; extra_cov.update(cov)
    ok = {}; und = {}; loops = {}; funcs = set(); checks = {}
    for r in res:
        for k, n in r['ok'].items(): ok[k] = ok.get(k, 0) + n
        for k, n in r['checks'].items(): checks[str(k)] = checks.get(str(k), 0) + n
        for k, d in r['und'].items():
            for w, n in d.items(): und['%s%s: %s: %s' % (r['fn'], ' (%d items)' % r['big'] if r['big'] else '', k, w)] = n
        for k, d in r['loops'].items():
            for how, n in d.items(): loops.setdefault(k, {}); loops[k][how] = loops[k].get(how, 0) + n
        funcs |= set(r['funcs'])
    nocheck = [r['fn'] for r in res if not r['checks'] and not r['viol']]
    known = [f for f in load_known()['findings'] if f['property'] == pid]
    new = []; kf = []
    for v in viols:
        m = [f for f in known if re.search(f['rule'], v['rule']) and re.search(f['site'], v['loc']) and re.search(f.get('driver', ''), v.get('driver', ''))]
        (kf if m else new).append((v, m))
    for f in known:
        if any(f in m for v, m in kf): print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    cov = dict(explanation=prop['explain'], drivers=len(res), long_sequences={c: sorted(b for (d, b) in MODS if d == c and b) for (c, _) in MODS}, drivers_without_verdict=nocheck, functions_analysed=len(funcs), functions=sorted(funcs)[:200],
               abstract_instructions=sum(r['insts'] for r in res), partitions=sum(sum(r['ends'].values()) for r in res), case_splits=sum(r['forks'] for r in res),
               obligations_discharged=sum(ok.values()), by_rule=ok, expectations_checked=checks, undecided=und, loops=loops, slowest=sorted(((round(r['t'], 2), r['fn']) for r in res), reverse=True)[:5])
    cov.update(extra_cov)
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', coverage=cov, wall_s=round(time.time() - t0, 2), violations=len(new), assumptions=prop.get('assumptions', []) + props.COMMON)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    if new:
        rp = os.path.join(ROOT, 'evidence', pid + '.replay.json')
        with open(rp, 'w') as f:
            json.dump([dict(v, replay='%spython3 /verif/analysis/run1.py %s %s %s' % ('BIG=%d ' % v['big'] if v.get('big') else '', v.get('cpp'), v.get('spec'), v.get('driver'))) for v, m in new], f, indent=1, default=str)
        for v, m in new[:12]: print('  %s: %s at %s [driver %s] example %s' % (v['rule'], v['msg'], v['loc'], v.get('driver'), str(v.get('witness'))[:200]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    n = sum(ok.values()) + sum(x for k, x in extra_cov.items() if k.endswith('_decided') and isinstance(x, int))
    if n == 0 or (res and not checks and not extra_cov):
        print('ANALYSIS BROKEN: no obligation could be decided'); return 2
    print('%s holds: %d drivers, %d functions, %d obligations discharged, %d undecided, %.1fs' % (pid, len(res), len(funcs), n, sum(und.values()), time.time() - t0))
    return 0
if __name__ == '__main__': sys.exit(main())
