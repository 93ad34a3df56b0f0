"""Integer constants the library code of a module decides on (comparisons, switches, remainders, masks, shifts)."""
def constants(mod):
    out = {}
    for n, f in mod.funcs.items():
        for b in f.get('blocks', ()):
            for i in b:
                if i['op'] not in ('icmp', 'switch', 'urem', 'srem', 'and', 'lshr', 'ashr', 'add', 'sub', 'call', 'invoke', 'store', 'select', 'phi', 'ret'): continue
                if i['op'] in ('call', 'invoke') and str((i.get('callee') or ['', ''])[1]).startswith(('llvm.', '_Znw', '_Zna', '_Zdl', '_Zda', 'mem', '__')): continue
                if '/Source/' not in str((i.get('loc') or [''])[0]): continue
                for o in list(i.get('ops', ())) + [i.get('a'), i.get('b')] + [i.get('val')] + list(i.get('cases', ())) + list(i.get('args', ())) + [x[0] for x in i.get('in', ())]:
                    if isinstance(o, (list, tuple)) and len(o) == 2 and o[0] == 'i' and isinstance(o[1], int):
                        v = o[1]
                        if i['op'] in ('lshr', 'ashr'): v = 1 << v if v < 20 else 0
                        if i['op'] == 'and': v = v + 1
                        out.setdefault(v, set()).add((i['loc'][0].split('/Source/')[-1], i['loc'][1], i['op']))
    return out
