"""Compile driver TUs (which include /repo/Source headers, or are /repo sources) to IR and JSON."""
import os, re, subprocess, sys, tempfile, shutil, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = shutil.which('clang++-18') or 'clang++'
OPT = shutil.which('opt-18') or 'opt'
CFLAGS = ['-std=c++20', '-g', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-access-control', '-fno-discard-value-names', '-w', '-I' + REPO + '/Source', '-I' + HERE + '/drivers']
def big():
    for f in CFLAGS:
        if f.startswith('-DBIG='): return int(f[6:])
    return 0
def tool():
    """path of the IR dumper, building it when needed"""
    src = os.path.join(HERE, 'irdump.cpp'); bindir = os.path.join(HERE, '_bin'); os.makedirs(bindir, exist_ok=True)
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(bindir, 'irdump-' + h)
    if not os.path.exists(out):
        fl = subprocess.check_output(['llvm-config-18', '--cxxflags', '--ldflags'], text=True).split()
        tmp = out + '.%d' % os.getpid()
        subprocess.check_call([CLANG] + fl + ['-fexceptions', '-O1', src, '-o', tmp, '-lLLVM-18'])
        os.replace(tmp, out)
    return out
class BuildError(Exception): pass
HEAD = re.compile(r'^(\s*)(DRV drv_\w+\(\)|static void \w+\(\)) \{')
def without(text, name, err):
    """the text with every driver function emptied that a compiler error points into, or None"""
    L = text.split('\n'); groups = []
    for l in err.split('\n'):
        if ': error: ' in l or ': fatal error: ' in l: groups.append([])
        m = re.search(r'(?:^|/)' + re.escape(name) + r':(\d+):', l)
        if m and groups: groups[-1].append(int(m.group(1)) - 1)
    drop = set()
    for g in groups:
        hit = set()
        for i in g:
            if i >= len(L): continue
            k = i
            while k > 0 and not HEAD.match(L[k]) and L[k][:1] in ' \t': k -= 1
            m = HEAD.match(L[k])
            if m and (k == i or len(L[i]) - len(L[i].lstrip()) > len(m.group(1))): hit.add(k)
        if not hit: return None
        drop |= hit
    if not drop: return None
    for k in drop:
        m = HEAD.match(L[k]); L[k] = m.group(1) + m.group(2) + ' {}'
        j = k + 1
        while j < len(L) and L[j].strip() and len(L[j]) - len(L[j].lstrip()) > len(m.group(1)): L[j] = ''; j += 1
    return '\n'.join(L)
def compile_json(src, workdir, extra=(), passes='sroa,loop-simplify'):
    """source file -> json path"""
    base = os.path.join(workdir, os.path.basename(src).replace('.', '_'))
    with open(src) as f: text = f.read()
    keep = 'ACCESS CONTROL' not in text.split('\n', 1)[0]
    fl = [CLANG] + [x for x in CFLAGS if keep or x != '-fno-access-control'] + list(extra)
    p = subprocess.run(fl + ['-S', '-emit-llvm', src, '-o', base + '.ll'], capture_output=True, text=True)
    tries = 0; cur = src
    while p.returncode and keep and os.path.dirname(os.path.abspath(src)) == HERE + '/drivers' and tries < 8:
        # something a driver names is not there any more (renamed, say): go on without the drivers that name it; they are listed as having no verdict
        q = subprocess.run(fl + ['-fsyntax-only', '-ferror-limit=0', '-fno-caret-diagnostics', '-ftemplate-backtrace-limit=0', cur], capture_output=True, text=True)
        text2 = without(text, os.path.basename(src), q.stderr)
        if text2 is None: break
        text = text2; cur = os.path.join(workdir, os.path.basename(src)); tries += 1
        with open(cur, 'w') as f: f.write(text)
        p = subprocess.run(fl + ['-S', '-emit-llvm', cur, '-o', base + '.ll'], capture_output=True, text=True)
    if p.returncode: raise BuildError('clang failed on %s:\n%s' % (src, p.stderr[-3000:]))
    p = subprocess.run([OPT, '-S', '-passes=' + passes, base + '.ll', '-o', base + '.opt.ll'], capture_output=True, text=True)
    if p.returncode: raise BuildError('opt failed on %s:\n%s' % (src, p.stderr[-3000:]))
    with open(base + '.json', 'w') as f:
        p = subprocess.run([tool(), base + '.opt.ll'], stdout=f, stderr=subprocess.PIPE, text=True)
    if p.returncode: raise BuildError('irdump failed: ' + p.stderr[-2000:])
    return base + '.json'
if __name__ == '__main__': print(tool())
