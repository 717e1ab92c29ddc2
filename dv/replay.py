"""Counterexamples replayed on the real code: tu.cpp (the same entry points) compiled to a shared library, called with the
model's arguments and memory in a child process; the contract's postcondition is then evaluated on what the code really did."""
import ctypes, json, mmap, os, signal, subprocess, sys, z3
if __name__ != "__main__":
    from .sym import *
    from .ir import CLANG
def build(cpp, repo, tmp):
    so = os.path.join(tmp, 'dv.so')
    if not os.path.exists(so):
        r = subprocess.run([CLANG[0], '-std=c++17', '-O1', '-march=native', '-fPIC', '-shared', '-w', f'-I{repo}/include', cpp, '-o', so + '.tmp'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: return None
        os.rename(so + '.tmp', so)
    return so
def chain(m, a):
    """value of an array under the model: (default, {index: value})"""
    e = m.eval(a, model_completion=True); d = {}
    while z3.is_store(e):
        b, i, v = e.children(); d.setdefault(i.as_long(), v.as_long()); e = b
    if z3.is_K(e): return e.children()[0].as_long(), d
    if z3.is_quantifier(e): return None, d
    return 0, d
def concretise(ex, m, limit=1 << 22):
    regs = {}
    for r, v in ex.mem0.items():
        R = ex.regions[r]; sz = m.eval(R.size, model_completion=True).as_long()
        if sz > limit: return None
        if R.kind == 'cells':
            c = []
            for o, x in sorted(v.items()):
                if isinstance(x, tuple):
                    al = [(rr, m.eval(off, model_completion=True).as_long()) for g, rr, off in x[1].alts if z3.is_true(m.eval(g, model_completion=True))]
                    c.append([o, 'p', al[0][0], al[0][1]])
                else: c.append([o, 'b', m.eval(x, model_completion=True).as_long(), 0])
            regs[r] = {'kind': 'cells', 'size': sz, 'cells': c}
        else:
            d, idx = chain(m, v)
            if d is None: return None
            regs[r] = {'kind': R.kind, 'size': sz, 'default': d, 'idx': [[i, x] for i, x in idx.items() if i < (sz // 8 if R.kind == 'words' else sz)]}
    return regs
def value(m, a):
    if isinstance(a, Ptr):
        for g, r, off in a.alts:
            if z3.is_true(m.eval(g, model_completion=True)): return ['p', r, m.eval(off, model_completion=True).as_long()]
    v = m.eval(a, model_completion=True)
    return ['b', 1 if z3.is_true(v) else 0, 8] if z3.is_bool(a) else ['i', v.as_long(), a.size()]
def call(so, entry, args, regs, retbits, timeout=20):
    req = json.dumps({'so': so, 'entry': entry, 'args': args, 'regs': regs, 'ret': retbits})
    try: r = subprocess.run([sys.executable, os.path.abspath(__file__)], input=req, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout, cwd='/')
    except subprocess.TimeoutExpired: return {'died': 'no result within %d s' % timeout}
    if r.returncode: return {'died': f'signal {-r.returncode}' if r.returncode < 0 else f'exit {r.returncode}'}
    return json.loads(r.stdout)
def replay(p, ex, m, so, what):
    """text of the confirmed violation, or None"""
    for c in ex.asm[:ex.npre]:
        if not z3.is_true(m.eval(c, model_completion=True)): return None
    regs = concretise(ex, m)
    if regs is None: return None
    f = ex.f; rb = f.ret.strip(); rb = 0 if rb == 'void' else 1 if rb == 'i1' else int(rb[1:]) if rb.startswith('i') else None
    if rb is None: return None
    args = [value(m, a) for a in p.args]; r = call(so, p.entry, args, regs, rb)
    desc = f'{p.name} called with {args}\nmemory before: ' + json.dumps({k: ({**v, "idx": v["idx"][:40]} if 'idx' in v else v) for k, v in regs.items()})[:4000]
    if 'died' in r:
        if r['died'].startswith(('signal', 'no result')): return f'{desc}\nthe real code did not return: {r["died"]} (writes and reads beyond the end of each object fault)'
        return None
    if r.get('under'): return f'{desc}\nthe real code wrote outside {r["under"]}'
    ret = None if not rb else (z3.BoolVal(bool(r['ret'] & 1)) if rb == 1 else BV(r['ret'], rb))
    mem = {}
    for k, v in ex.mem0.items():
        R = ex.regions[k]; ch = r['regs'].get(k, [])
        if R.kind == 'cells':
            d = dict(v)
            for o, x in ch:
                if any(isinstance(d.get(o2), tuple) and o2 <= o < o2 + 8 for o2 in d): return None
                d[o] = BV(x, 8)
            mem[k] = d
        else:
            a = v
            for i, x in ch: a = z3.Store(a, BV(i, 64), BV(x, 64 if R.kind == 'words' else 8))
            mem[k] = a
    k = len(ex.asm)
    for n, c in p.post(ex, ret, mem):
        v = m.eval(c, model_completion=True)
        if not (z3.is_true(v) or z3.is_false(v)): v = z3.simplify(z3.substitute(v))
        if z3.is_false(v): return f'{desc}\nresult of the real code: {r["ret"]}, words/bytes changed: {json.dumps(r["regs"])[:3000]}\nviolated: {n}'
    return None

def child():
    q = json.load(sys.stdin); PG = 4096; libc = ctypes.CDLL(None); libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]; addr = {}; bufs = {}
    for r, v in q['regs'].items():
        n = v['size']; pages = (n + PG - 1) // PG + 1; m = mmap.mmap(-1, (pages + 1) * PG); base = ctypes.addressof(ctypes.c_char.from_buffer(m)); libc.mprotect(base + pages * PG, PG, 0)
        addr[r] = base + pages * PG - n; bufs[r] = m
    init = {}
    for r, v in q['regs'].items():
        n = v['size']
        if v['kind'] == 'words':
            w = [v['default']] * (n // 8)
            for i, x in v['idx']: w[i] = x
            b = b''.join(x.to_bytes(8, 'little') for x in w)
        elif v['kind'] == 'bytes':
            w = bytearray([v['default']]) * n
            for i, x in v['idx']: w[i] = x
            b = bytes(w)
        else:
            w = bytearray(n)
            for o, k, x, y in v['cells']:
                if k == 'b': w[o] = x
                else: w[o:o + 8] = (addr[x] + y if x else 0).to_bytes(8, 'little')
            b = bytes(w)
        lead = (addr[r] - (ctypes.addressof(ctypes.c_char.from_buffer(bufs[r])))); ctypes.memset(addr[r] - lead, 0xA5, lead); ctypes.memmove(addr[r], b, len(b)); init[r] = (b, lead)
    L = ctypes.CDLL(q['so'], mode=os.RTLD_LAZY); f = getattr(L, q['entry']); f.restype = {0: None, 1: ctypes.c_uint8, 8: ctypes.c_uint8, 32: ctypes.c_uint32, 64: ctypes.c_uint64}[q['ret']]; a = []
    for t in q['args']:
        if t[0] == 'p': a.append(ctypes.c_void_p(addr[t[1]] + t[2]) if t[1] else ctypes.c_void_p(0))
        elif t[0] == 'b': a.append(ctypes.c_uint8(t[1]))
        else: a.append((ctypes.c_uint64 if t[2] > 32 else ctypes.c_uint32)(t[1]))
    ret = f(*a); out = {}; under = None
    for r, (b, lead) in init.items():
        now = ctypes.string_at(addr[r], len(b))
        if ctypes.string_at(addr[r] - lead, lead) != b'\xa5' * lead: under = r
        st = 8 if q['regs'][r]['kind'] == 'words' else 1
        out[r] = [[i // st, int.from_bytes(now[i:i + st], 'little')] for i in range(0, len(b), st) if now[i:i + st] != b[i:i + st]][:5000]
    print(json.dumps({'ret': ret if ret is not None else 0, 'regs': out, 'under': under}))
if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); child()
