"""Effect analysis: which storage that outlives a call may a library function write, other than through its arguments?

Every function of /Source (all library sources and every template the drivers instantiate) is scanned for references to
global or static variables.  A variable is hidden state when some library function outside its initialisation writes it
with an ordinary (non-atomic) store, directly or through a callee that writes its parameter, and takes no lock.  Calls to C
library functions that keep their result or their position in static storage count as such writes."""
import os, re, glob, json, multiprocessing as mp
import build
HERE = os.path.dirname(os.path.abspath(__file__))
# facilities whose purpose is state of the whole process
OWN = re.compile(r'/Source/(GlobalStorage\.|UnitTest/|Console\.|Console/|Strings/LoremIpsum\.)')
HOOK = re.compile(r'vl::(Inject|Eject)\w*\(')
INIT = re.compile(r'^(__cxx_global|_GLOBAL__)')
LOCK = re.compile(r'mutex|[Ll]ock|call_once|__cxa_guard|semaphore|critical', re.I)
STATIC_C = {'localtime', 'gmtime', 'ctime', 'asctime', 'strtok', 'rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'tmpnam', 'strerror', 'setlocale', 'mbtowc', 'wctomb', 'mblen', 'ecvt', 'fcvt', 'getc_unlocked', 'l64a', 'crypt', 'ttyname', 'gethostbyname', 'readdir', 'localeconv', 'nl_langinfo', 'ptsname', 'setenv', 'putenv', 'unsetenv'}
NULL_STATE = {'mbrtowc': 3, 'wcrtomb': 2, 'mbrlen': 2, 'mbsrtowcs': 3, 'wcsrtombs': 3, 'mbsnrtowcs': 4, 'wcsnrtombs': 4, 'mbrtoc16': 3, 'mbrtoc32': 3, 'c16rtomb': 2, 'c32rtomb': 2, 'strtok_r': -1}
READS = re.compile(r'^(strlen|wcslen|strcmp|wcscmp|strncmp|wcsncmp|memcmp|wmemcmp|strchr|wcschr|strrchr|wcsrchr|strstr|wcsstr|strcasecmp|wcscasecmp|memchr|wmemchr|printf|wprintf|puts|fputs|fputws|strto\w*|wcsto\w*|ato\w*|isw?\w+|tow?\w+|free|_ZdlPv\w*|_ZdaPv\w*|__cxa_guard_\w+|__cxa_atexit|__cxa_throw|__cxa_allocate_exception|__dynamic_cast|llvm\.(dbg|lifetime|assume|expect|invariant)\S*)$')
WRITES0 = re.compile(r'^llvm\.(memcpy|memmove|memset)\S*$')
def base(f, v, defs, seen=None):
    """roots of a pointer value: ('g', name) or ('a', argument number); through address arithmetic, phi and select"""
    if v[0] == 'g': return {('g', v[1])}
    if v[0] == 'ce': 
        out = set()
        for x in v[2]: out |= base(f, x, defs, seen)
        return out
    if v[0] != 'v': return set()
    seen = seen if seen is not None else set()
    if v[1] in seen: return set()
    seen.add(v[1])
    if v[1] < len(f['args']): return {('a', v[1])}
    i = defs.get(v[1])
    if i is None: return set()
    op = i['op']
    if op == 'getelementptr': return base(f, i['base'], defs, seen)
    if op in ('bitcast', 'addrspacecast', 'ptrtoint', 'inttoptr', 'freeze'): return base(f, i.get('a') or i['ops'][0], defs, seen)
    if op == 'phi': return set().union(*[base(f, x, defs, seen) for x, _ in i['in']]) if i['in'] else set()
    if op == 'select': return base(f, i['ops'][1], defs, seen) | base(f, i['ops'][2], defs, seen)
    return set()
def scan(path):
    """per function: direct writes and calls, by root"""
    m = json.load(open(path)); out = {}
    for n, f in m['funcs'].items():
        if 'blocks' not in f: continue
        defs = {}
        for b in f['blocks']:
            for i in b: defs[i['id']] = i
        wr = []; calls = []; lock = False; refs = set()
        # a guarded block initialises a function-local static
        guarded = set(); guard = {}
        for k, b in enumerate(f['blocks']):
            for i in b:
                if i['op'] in ('call', 'invoke') and i['callee'][:2] == ['f', '__cxa_guard_acquire']: guard[k] = i
        if guard:
            # everything reachable between acquire and release/abort
            succ = {k: [x for i in b[-1:] for x in ([i[y] for y in ('t', 'f', 'u', 'def') if isinstance(i.get(y), int)] + [c[1] for c in i.get('cases', [])])] for k, b in enumerate(f['blocks'])}
            for k in guard:
                todo = list(succ[k]); rel = {j for j, b in enumerate(f['blocks']) if any(i['op'] in ('call', 'invoke') and i['callee'][0] == 'f' and i['callee'][1] in ('__cxa_guard_release', '__cxa_guard_abort') for i in b)}
                t = f['blocks'][k][-1]
                if t['op'] == 'br' and 'cond' in t: todo = [t['t']]
                while todo:
                    j = todo.pop()
                    if j in guarded: continue
                    guarded.add(j)
                    if j not in rel: todo += succ[j]
        for k, b in enumerate(f['blocks']):
            for i in b:
                loc = i.get('loc') or [f.get('file', '?'), f.get('line', 0)]
                if i['op'] == 'store' and not i.get('atomic'):
                    for r in base(f, i['p'], defs): wr.append((r, loc, k in guarded))
                elif i['op'] in ('call', 'invoke'):
                    c = i['callee']
                    if c[0] != 'f': continue
                    if LOCK.search(c[1]) and not c[1].startswith('__cxa_guard'): lock = True
                    args = [base(f, x, defs) for x in i['args']]
                    if WRITES0.match(c[1]):
                        for r in args[0]: wr.append((r, loc, k in guarded))
                    calls.append((c[1], [sorted(x) for x in args], loc, k in guarded, [x[0] == 'n' for x in i['args']]))
        out[n] = dict(dem=f['dem'], file=f.get('file', ''), line=f.get('line', 0), wr=wr, calls=calls, lock=lock)
    gl = {n: {k: g.get(k) for k in ('const', 'tls', 'dem', 'file', 'line', 'cq', 'name')} for n, g in m['globals'].items()}
    return out, gl, [n for n, f in m['funcs'].items() if 'blocks' not in f]
def one(a):
    src, wd = a
    d = os.path.join(wd, 'st_' + re.sub(r'\W', '_', src)); os.makedirs(d, exist_ok=True)
    try: return src, scan(build.compile_json(src, d)), None
    except build.BuildError as x: return src, None, str(x)
def hidden_state(wd):
    srcs = [f for f in sorted(glob.glob(build.REPO + '/Source/**/*.cpp', recursive=True)) if not f.endswith('.Windows.cpp')]
    drvs = sorted(glob.glob(os.path.join(HERE, 'drivers', '*.cpp')))
    with mp.Pool(8) as pool: rs = pool.map(one, [(s, wd) for s in srcs + drvs], chunksize=1)
    funcs = {}; gl = {}; broken = []
    for s, r, err in rs:
        if err: broken.append(os.path.basename(s)); continue
        for n, f in r[0].items(): funcs.setdefault(n, f)
        for n, g in r[1].items():
            if n not in gl or g.get('file'): gl[n] = g
    # parameters a function may write (ordinary stores), to a fixpoint
    pw = {n: {r[1] for r, _, _ in f['wr'] if r[0] == 'a'} for n, f in funcs.items()}
    ch = True
    while ch:
        ch = False
        for n, f in funcs.items():
            for c, args, loc, gd, nul in f['calls']:
                for k, rs_ in enumerate(args):
                    if (c in pw and k in pw[c]) or (c not in funcs and writes_unknown(c, k)):
                        for r in rs_:
                            if r[0] == 'a' and r[1] not in pw[n]: pw[n].add(r[1]); ch = True
    viols = []; nf = 0; vars_seen = set(); locked = []
    def lib(f): return '/Source/' in f
    for n, f in sorted(funcs.items()):
        if not lib(f['file']) or INIT.match(n): continue
        nf += 1
        own = OWN.search(f['file'])
        hits = []
        for r, loc, gd in f['wr']:
            if r[0] == 'g' and not gd: hits.append((r[1], loc, 'writes'))
        for c, args, loc, gd, nul in f['calls']:
            if not own and c in STATIC_C: viols.append(v(f, loc, 'calls %s(), which keeps its result in storage shared by all threads' % c))
            if not own and c in NULL_STATE and 0 <= NULL_STATE[c] < len(nul) and nul[NULL_STATE[c]]: viols.append(v(f, loc, 'calls %s() without a conversion state of its own' % c))
            if gd: continue
            for k, rs_ in enumerate(args):
                for r in rs_:
                    if r[0] == 'g' and ((c in pw and k in pw[c]) or (c not in funcs and writes_unknown(c, k))): hits.append((r[1], loc, 'passes to %s, which writes it,' % c[:60]))
        for g, loc, how in hits:
            d = gl.get(g, {})
            vars_seen.add(g)
            if d.get('const') or d.get('tls') or d.get('cq') or g.startswith(('_ZTV', '_ZTI', '_ZGV', '_ZTT', 'llvm.')): continue
            if not lib(d.get('file') or ''): continue            # a driver's own variable
            if own and OWN.search(d.get('file') or ''): continue
            if HOOK.match(f['dem']): continue
            if f['lock']: locked.append(d['dem']); continue
            viols.append(v(f, loc, '%s the variable %s (%s:%s), which outlives the call and is shared by all threads' % (how, d['dem'], os.path.basename(d.get('file') or '?'), d.get('line'))))
    uniq = {(x['msg'], x['loc']): x for x in viols}
    return list(uniq.values()), dict(functions_scanned_decided=nf, translation_units=len(rs) - len(broken), not_compiled=broken, variables_of_the_library=sorted(g['dem'] for n, g in gl.items() if lib(g.get('file') or '') and not g.get('const'))[:60], under_lock=sorted(set(locked)))
def writes_unknown(c, k):
    if READS.match(c) or WRITES0.match(c) or c.startswith(('v_', 'llvm.')): return False
    if c.startswith('_Z'): return False                      # C++ functions without a body here: opaque element types, the standard library
    if c in ('memcpy', 'memmove', 'memset', 'strcpy', 'strcat', 'wcscpy', 'wcscat', 'wmemcpy', 'wmemmove', 'wmemset', 'strncpy', 'wcsncpy', 'sprintf', 'snprintf', 'swprintf', 'vsnprintf', 'vswprintf', 'mbstowcs', 'wcstombs', 'gcvt', 'fgets', 'fgetws'): return k == 0
    return k == 0
def v(f, loc, msg): return dict(rule='hidden-state', msg='%s %s' % (f['dem'][:120], msg), loc='%s:%s' % (os.path.basename(loc[0]), loc[1]), witness='', driver=f['dem'][:80], cpp='', spec='')
if __name__ == '__main__':
    import tempfile, shutil, sys
    w = tempfile.mkdtemp()
    try:
        vs, cov = hidden_state(w)
        for x in vs: print(x['loc'], x['msg'])
        print(json.dumps(cov, indent=0)[:3000])
    finally: shutil.rmtree(w)
