"""Verification-condition generator: guarded symbolic execution of one IR function, loops cut by invariants or
unrolled with an unwinding obligation, callees by contract.  Machine arithmetic is exact (bit vectors)."""
import re, z3
from .ir import Unsupported
BV = z3.BitVecVal
def bv(x, n=64): return BV(x, n) if isinstance(x, int) else x
T, F = z3.BoolVal(True), z3.BoolVal(False)
def simp(e): return z3.simplify(e)
def is_true(e): return z3.is_true(e)
def is_false(e): return z3.is_false(e)
def And(*a):
    a = [x for x in a if not is_true(x)]
    if any(is_false(x) for x in a): return F
    return T if not a else a[0] if len(a) == 1 else z3.And(*a)
def Or(*a):
    a = [x for x in a if not is_false(x)]
    if any(is_true(x) for x in a): return T
    return F if not a else a[0] if len(a) == 1 else z3.Or(*a)
def Not(a): return F if is_true(a) else T if is_false(a) else z3.Not(a)
def If(c, a, b):
    if is_true(c): return a
    if is_false(c): return b
    if a is b or (a.get_id() == b.get_id()): return a
    return z3.If(c, a, b)
def Implies(a, b): return b if is_true(a) else T if is_false(a) or is_true(b) else z3.Implies(a, b)
def zx(e, n): return e if e.size() == n else z3.ZeroExt(n - e.size(), e) if e.size() < n else z3.Extract(n - 1, 0, e)
def const(e):
    if isinstance(e, int): return e
    if z3.is_bv_value(e): return e.as_long()
    s = z3.simplify(e)
    return s.as_long() if z3.is_bv_value(s) else None

# ---- bit functions (the semantics of the x86 instructions and of the specification)
def prefix_counts(v, w=7):
    """[number of set bits below j for j in 0..64]"""
    k = [BV(0, w)]
    for j in range(v.size()): k.append(k[-1] + z3.ZeroExt(w - 1, z3.Extract(j, j, v)))
    return k
def ctpop(v):
    """tree of additions"""
    n = v.size(); xs = [z3.ZeroExt(7, z3.Extract(j, j, v)) for j in range(n)]
    while len(xs) > 1: xs = [xs[i] + xs[i + 1] if i + 1 < len(xs) else xs[i] for i in range(0, len(xs), 2)]
    return zx(xs[0], n)
def cttz(v):
    n = v.size(); r = BV(n, n)
    for j in reversed(range(n)): r = z3.If(z3.Extract(j, j, v) == 1, BV(j, n), r)
    return r
def ctlz(v):
    n = v.size(); r = BV(n, n)
    for j in range(n): r = z3.If(z3.Extract(j, j, v) == 1, BV(n - 1 - j, n), r)
    return r
def bswap(v): return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(v.size() // 8)])
def pdep(src, mask):
    k = prefix_counts(mask); bits = []; c = const(src)
    for j in range(64):
        if c is not None and bin(c).count('1') <= 4: b = z3.If(z3.Or(*[k[j] == t for t in range(64) if c >> t & 1]), BV(1, 1), BV(0, 1))
        else: b = z3.Extract(0, 0, z3.LShR(src, zx(k[j], 64)))
        bits.append(z3.Extract(j, j, mask) & b)
    return z3.Concat(*reversed(bits))

class Ptr:
    __slots__ = ('alts',)
    def __init__(self, alts): self.alts = alts
    @staticmethod
    def to(region, off=0): return Ptr([(T, region, bv(off))])
    def add(self, d): return Ptr([(g, r, simp(o + d)) for g, r, o in self.alts])
    def ite(c, a, b):
        al = [(simp(And(c, g)), r, o) for g, r, o in a.alts] + [(simp(And(Not(c), g)), r, o) for g, r, o in b.alts]
        al = [x for x in al if not is_false(x[0])]; out = []
        for g, r, o in al:   # join equal targets, and targets in one region
            for i, (g2, r2, o2) in enumerate(out):
                if r2 == r: out[i] = (simp(Or(g2, g)), r, simp(If(g, o, o2))); break
            else: out.append((g, r, o))
        return Ptr(out)
NULL = Ptr([(T, None, BV(0, 64))])

class Region:
    def __init__(self, name, kind, size, init=None, writable=True, signed=False): self.name = name; self.kind = kind; self.size = size; self.init = init; self.writable = writable

class Obl:
    __slots__ = ('name', 'hyp', 'goal', 'kind', 'line')
    def __init__(self, name, hyp, goal, kind, line=''): self.name = name; self.hyp = hyp; self.goal = goal; self.kind = kind; self.line = line

class Ret(Exception): pass
class Exec:
    def __init__(self, ir, fname):
        self.ir = ir; self.f = ir.funcs[fname]; self.regions = {}; self.mem = {}; self.obls = []; self.asm = []; self.nfresh = 0
        self.contracts = []; self.loops_policy = lambda ex, L: None; self.check_mem = True; self.written = None; self.unwound = {}; self.fresh_inputs = []; self.used_contracts = set()
    # ---- set-up
    def region(self, name, kind, size, init=None, writable=True):
        if kind == 'words' and init is None: init = z3.Array(name, z3.BitVecSort(64), z3.BitVecSort(64))
        if kind == 'bytes' and init is None: init = z3.Array(name, z3.BitVecSort(64), z3.BitVecSort(8))
        if kind == 'cells' and init is None: init = {}
        self.regions[name] = Region(name, kind, bv(size), init, writable); self.mem[name] = init; return init
    def assume(self, c): self.asm.append(c)
    def fresh(self, n, w):
        self.nfresh += 1
        return z3.BitVec(f'{n}!{self.nfresh}', w) if w else z3.Bool(f'{n}!{self.nfresh}')
    popcount = None; mul = None; quick = False; _es = None; _en = 0
    fold = False
    def entails(self, guard, c, force=False):
        """scalar consequence of what is known here (used to choose simpler, equivalent encodings)"""
        if not self.quick and not force: return False
        from .core import has_array
        c = z3.simplify(z3.Implies(guard, c))
        if z3.is_true(c): return True
        if z3.is_false(c) or has_array(c): return False
        if self._es is None: self._es = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'bit-blast', 'sat')
        t = z3.TryFor(self._es, 3000).solver()
        for h in self.asm:
            if not has_array(h): t.add(h)
        t.add(z3.Not(c)); return t.check() == z3.unsat
    def ob(self, name, guard, goal, kind, line=''):
        goal = Implies(guard, goal)
        if is_true(goal): self.obls.append(Obl(name, 0, T, kind, line)); return
        self.obls.append(Obl(name, len(self.asm), goal, kind, line))
    # ---- CFG
    def analyse(self):
        f = self.f; self.succ = {}; self.pred = {b: [] for b in f.blocks}
        for b, ins in f.blocks.items():
            t = ins[-1]
            if t.op == 'br': s = [t.a[1]] if t.a[0] is None else [t.a[1], t.a[2]]
            elif t.op == 'switch': s = [t.a[2]] + [x for _, x in t.a[3]]
            else: s = []
            self.succ[b] = s
            for x in dict.fromkeys(s): self.pred[x].append(b)
        order = []; seen = {}; back = set(); entry = f.order[0]; st = [(entry, iter(self.succ[entry]))]; seen[entry] = 1
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen: seen[s] = 1; st.append((s, iter(self.succ[s]))); break
                elif seen[s] == 1: back.add((b, s))
            else: seen[b] = 2; order.append(b); st.pop()
        self.rpo = order[::-1]; self.loops = {}
        for u, h in back:
            body = {h, u}; w = [u]
            while w:
                x = w.pop()
                if x == h: continue
                for p in self.pred[x]:
                    if p in seen and p not in body: body.add(p); w.append(p)
            self.loops.setdefault(h, set()).update(body)
        self.inloops = {b: sorted([h for h in self.loops if b in self.loops[h]], key=lambda h: -len(self.loops[h])) for b in seen}
    # ---- values
    def val(self, ty, s, env):
        if s.startswith('%'):
            if s not in env: raise Unsupported('undefined ' + s)
            return env[s]
        if ty == 'ptr':
            if s == 'null': return NULL
            if s.startswith('@'): return self.global_ptr(s[1:])
            if s in ('undef', 'poison'): return NULL
            m = re.match(r'getelementptr inbounds \((.*)\)$', s)
            if m:
                from .ir import split_top, type_and_val
                a = split_top(m[1]); return self.gep(a[0], self.val('ptr', type_and_val(a[1])[1], env), [type_and_val(x) for x in a[2:]], env, T, s)
            raise Unsupported('pointer ' + s)
        m = re.match(r'i(\d+)$', ty)
        if m:
            n = int(m[1])
            if n == 1:
                return T if s in ('true', '1') else F if s in ('false', '0') else self.fresh('undef', 0)
            if s in ('undef', 'poison'): return self.fresh('undef', n)
            return BV(int(s), n)
        if ty == 'float' or ty == 'double': 
            import struct
            w = 32 if ty == 'float' else 64
            if s in ('undef', 'poison'): return self.fresh('undef', w)
            d = struct.unpack('<d', struct.pack('<Q', int(s, 16)))[0] if s.startswith('0x') else float(s)
            return BV(struct.unpack('<I', struct.pack('<f', d))[0] if w == 32 else struct.unpack('<Q', struct.pack('<d', d))[0], w)
        if s in ('undef', 'poison'): return {}
        raise Unsupported(f'value {ty} {s}')
    def global_ptr(self, g):
        if g not in self.regions:
            t = self.ir.globals.get(g)
            if t is None: raise Unsupported('global ' + g)
            m = re.match(r'i(\d+) (-?\d+)', t); m2 = re.match(r'\[(\d+) x i8\] c"(.*)"', t)
            if m: n = int(m[1]) // 8; v = BV(int(m[2]), n * 8); cells = {i: z3.simplify(z3.Extract(8 * i + 7, 8 * i, v)) for i in range(n)}
            elif t.startswith('float '): n = 4; v = self.val('float', t.split()[1], {}); cells = {i: z3.simplify(z3.Extract(8 * i + 7, 8 * i, v)) for i in range(4)}
            else: n = 1 << 20; cells = {}
            self.regions[g] = Region(g, 'cells', BV(n, 64), cells, False); self.mem[g] = cells
            self.root_mem[g] = cells
        return Ptr.to(g)
    def gep(self, ty, p, idx, env, guard, line):
        off = BV(0, 64); cur = ty
        for k, (ity, s) in enumerate(idx):
            v = self.val(ity, s, env); v = v if v.size() == 64 else z3.SignExt(64 - v.size(), v)
            if k == 0: off = off + v * BV(self.ir.size_align(cur)[0], 64); continue
            while cur in self.ir.types: cur = self.ir.types[cur]
            if cur.startswith('['):
                n, _, e = cur[1:-1].strip().partition(' x ')
                if const(v) is None and int(n) > 0 and self.check_mem: self.ob(f'array index in bounds ({cur})', guard, z3.ULE(v, BV(int(n), 64)), 'bounds', line)
                off = off + v * BV(self.ir.size_align(e)[0], 64); cur = e
            else:
                i = const(v); o, e = self.ir.fields(cur)[i]; off = off + BV(o, 64); cur = e
        return p.add(off)
    # ---- memory
    def bounds(self, r, off, n, guard, what, line):
        if not self.check_mem: return
        R = self.regions[r]
        if what == 'write' and not R.writable: self.ob(f'no write to {r}', guard, F, 'frame', line)
        g = And(z3.UGE(R.size, bv(n)), z3.ULE(off, R.size - bv(n)))
        g = simp(g)
        self.ob(f'{what} inside {r}', guard, g, 'bounds', line)
    def aligned(self, r, off, n, guard, line):
        m = re.search(r', align (\d+)', line); a = int(m[1]) if m else 1
        if a > 1: self.ob(f'aligned access to {r}', guard, simp((off & BV(a - 1, 64)) == 0), 'align', line)
    def word_load(self, m, off, n):
        i = simp(z3.LShR(off, 3)); w = z3.Select(m, i); lo = simp(z3.Extract(2, 0, off)); c = const(lo)
        if c is not None and c + n <= 8: return z3.Extract(8 * c + 8 * n - 1, 8 * c, w) if n < 8 else w
        w2 = z3.Select(m, simp(i + 1)); sh = zx(lo, 128) << 3
        return z3.Extract(8 * n - 1, 0, z3.LShR(z3.Concat(w2, w), sh))
    def word_store(self, m, off, n, v, g):
        i = simp(z3.LShR(off, 3)); lo = simp(z3.Extract(2, 0, off)); c = const(lo); old = z3.Select(m, i)
        if c == 0 and n == 8: return z3.Store(m, i, v if g is None else If(g, v, old))
        two = c is None or c + n > 8; i2 = simp(i + 1); o = z3.Concat(z3.Select(m, i2), old); sh = zx(lo, 128) << 3; msk = BV((1 << 8 * n) - 1, 128) << sh
        nv = (o & ~msk) | (zx(v, 128) << sh); nv = nv if g is None else If(g, nv, o)
        m2 = z3.Store(m, i, z3.Extract(63, 0, nv))
        return z3.Store(m2, i2, z3.Extract(127, 64, nv)) if two else m2
    def load_bytes(self, mem, r, off, n):
        """list of n BV8 (little endian) or a Ptr"""
        R = self.regions[r]; m = mem.get(r)
        if m is None: m = mem[r] = self.root_mem[r]         # a constant first named on this path
        if R.kind == 'cells':
            o = const(off)
            if o is None: raise Unsupported(f'symbolic offset into {r}')
            if n == 8 and isinstance(m.get(o), tuple): return m[o][1]
            out = []
            for i in range(o, o + n):
                if i not in m or isinstance(m[i], tuple):
                    if isinstance(m.get(i), tuple): raise Unsupported('partial pointer read')
                    m[i] = z3.BitVec(f'{r}@{i}', 8) if not R.name.startswith('%') else self.fresh('uninit', 8)
                out.append(m[i])
            return out
        if R.kind == 'bytes': return [z3.Select(m, simp(off + i)) for i in range(n)]
        raise Unsupported('bytes of words')
    def load(self, mem, ty, p, guard, line):
        n = self.ir.size_align(ty)[0]; res = None
        for g, r, off in p.alts:
            gg = simp(And(guard, g))
            if is_false(gg): continue
            if r is None:
                self.ob('no access through a null pointer', gg, F, 'bounds', line); continue
            self.bounds(r, off, n, gg, 'read', line)
            R = self.regions[r]
            if R.kind == 'words':
                if ty == 'ptr':
                    h = getattr(R, 'ptr_at', None)
                    if h is None: raise Unsupported(f'pointer load from {r}')
                    v = h(off)
                else:
                    self.aligned(r, off, n, gg, line); v = self.word_load(mem[r], off, n)
            else:
                v = self.load_bytes(mem, r, off, n)
                if ty == 'ptr':
                    if not isinstance(v, Ptr): raise Unsupported(f'pointer load of non-pointer from {r}')
                else:
                    if isinstance(v, Ptr): raise Unsupported('integer load of pointer')
                    v = z3.Concat(*reversed(v)) if n > 1 else v[0]
            if ty == 'i1' and not isinstance(v, Ptr): v = z3.Extract(0, 0, v) == 1
            res = v if res is None else (Ptr.ite(g, v, res) if isinstance(v, Ptr) else If(g, v, res))
        if res is None: res = NULL if ty == 'ptr' else self.fresh('bad', 0 if ty == 'i1' else n * 8)
        return res if isinstance(res, Ptr) else simp(res) if z3.is_bv(res) and len(p.alts) == 1 else res
    def store(self, mem, ty, v, p, guard, line):
        n = self.ir.size_align(ty)[0]
        if ty == 'i1': v = z3.If(v, BV(1, 8), BV(0, 8))
        for g, r, off in p.alts:
            gg = simp(And(guard, g))
            if is_false(gg): continue
            if r is None:
                self.ob('no access through a null pointer', gg, F, 'bounds', line); continue
            self.bounds(r, off, n, gg, 'write', line)
            if self.written is not None: self.written.add(r)
            R = self.regions[r]; one = len(p.alts) == 1
            if R.kind == 'words':
                self.aligned(r, off, n, gg, line); mem[r] = self.word_store(mem[r], off, n, v, None if one else g)
            elif R.kind == 'bytes':
                m = mem[r]
                for i in range(n):
                    b = z3.Extract(8 * i + 7, 8 * i, v); m = z3.Store(m, simp(off + i), simp(b) if one else If(g, b, z3.Select(mem[r], simp(off + i))))
                mem[r] = m
            else:
                o = const(off)
                if o is None: raise Unsupported(f'symbolic store offset into {r}')
                m = dict(mem[r])
                if isinstance(v, Ptr):
                    old = m.get(o)
                    m[o] = ('ptr', v if one or not isinstance(old, tuple) else Ptr.ite(g, v, old[1]))
                    for i in range(1, 8): m.pop(o + i, None)
                else:
                    for i in range(n):
                        b = simp(z3.Extract(8 * i + 7, 8 * i, v)) if n > 1 else v
                        if not one:
                            old = m.get(o + i)
                            if old is None: old = self.load_bytes({r: m}, r, BV(o + i, 64), 1)[0]
                            b = If(g, b, old)
                        m[o + i] = b
                mem[r] = m
    def merge_mem(self, edges):
        """edges: [(guard, mem)] with mutually exclusive guards"""
        if len(edges) == 1: return dict(edges[0][1])
        out = dict(edges[-1][1])
        for g, m in reversed(edges[:-1]):
            for r, v in m.items():
                if r not in out: out[r] = v; continue
                w = out[r]
                if v is w: continue
                if isinstance(v, dict):
                    d = {}
                    for o in set(v) | set(w):
                        a, b = v.get(o), w.get(o)
                        if a is None or b is None:
                            x = a if a is not None else b
                            # not written on the other path: it still holds its initial (symbolic) content
                            if isinstance(x, tuple): d[o] = x
                            else:
                                init = z3.BitVec(f'{r}@{o}', 8) if not r.startswith('%') else self.fresh('uninit', 8)
                                d[o] = If(g, a if a is not None else init, b if b is not None else init)
                        elif isinstance(a, tuple) and isinstance(b, tuple): d[o] = ('ptr', Ptr.ite(g, a[1], b[1]))
                        elif isinstance(a, tuple) or isinstance(b, tuple): d[o] = a if isinstance(a, tuple) else b
                        else: d[o] = If(g, a, b)
                    out[r] = d
                else: out[r] = If(g, v, w)
        return out
    # ---- run
    def run(self, args):
        self.analyse(); f = self.f; self.root_mem = self.mem
        env0 = {}
        for (ty, n), v in zip(f.params, args): env0[n] = v
        self.rets = []; self.state = {}
        entry = (f.order[0], ())
        # expanded nodes: (block, iteration tuple); processed in topological order via priority on (rpo positions, iterations)
        pos = {b: i for i, b in enumerate(self.rpo)}
        def key(node):
            b, it = node; ls = self.inloops[b]; k = []
            for h, i in zip(ls, it): k += [self.loop_pos(h, pos), i]
            return k + [pos[b]]
        import heapq
        incoming = {entry: [(T, env0, dict(self.mem), None)]}; heap = [(key(entry), entry)]; done = set()
        while heap:
            _, node = heapq.heappop(heap)
            if node in done: continue
            done.add(node); inc = [e for e in incoming.pop(node) if not is_false(e[0])]
            if not inc: continue
            for tgt, e in self.block(node, inc):
                b, it = node; ls = self.inloops[b]; lt = self.inloops[tgt]
                if tgt in self.loops and b in self.loops[tgt]:      # back edge
                    k = ls.index(tgt); L = self.pol[tgt]
                    if L[0] == 'cut': self.back_edge(tgt, node, e); continue
                    n = it[k] + 1
                    if n >= L[1]:
                        self.ob(f'loop {self.loop_name(tgt)} ends within {L[1]} iterations', e[0], F, 'unwind'); continue
                    nt = (tgt, it[:k] + (n,))
                else:
                    common = [h for h in lt if h in ls]; k = len(common)
                    nt = (tgt, it[:k] + ((0,) if tgt in self.loops and tgt not in common else ()))
                    if len(nt[1]) != len(lt): raise Unsupported('irreducible control flow')
                if is_false(e[0]): continue
                if nt not in incoming: incoming[nt] = []; heapq.heappush(heap, (key(nt), nt))
                if nt in done: raise Unsupported('control flow order')
                incoming[nt].append(e)
        return self.rets
    def loop_pos(self, h, pos): return pos[h]
    def loop_name(self, h): return f'#{sorted(self.loops, key=self.rpo.index).index(h) + 1}'
    pol = None
    def policy(self, h):
        if self.pol is None: self.pol = {}
        if h not in self.pol:
            self.pol[h] = self.loops_policy(self, h) or ('unroll', 20)
        return self.pol[h]
    def phis(self, b): return [i for i in self.f.blocks[b] if i.op == 'phi']
    def phi_val(self, i, inc):
        ty, src = i.a; d = dict((b, v) for v, b in src); r = None
        for g, env, mem, pb in reversed(inc):
            v = self.val(ty, d[pb], env)
            r = v if r is None else (Ptr.ite(g, v, r) if isinstance(v, Ptr) else If(g, v, r))
        return r
    def block(self, node, inc):
        b, it = node; guard = simp(Or(*[e[0] for e in inc])); env = {}
        if len(inc) == 1: env = dict(inc[0][1])
        else:
            # values defined in a dominator are the same object on all edges; others are only used through phis
            keys = set(inc[0][1])
            for e in inc[1:]: keys &= set(e[1])
            for k in keys:
                vs = [e[1][k] for e in inc]
                if all(v is vs[0] for v in vs): env[k] = vs[0]
                else:
                    r = vs[-1]
                    try:
                        for e, v in zip(reversed(inc[:-1]), reversed(vs[:-1])): r = Ptr.ite(e[0], v, r) if isinstance(v, Ptr) else If(e[0], v, r)
                    except Exception: continue
                    env[k] = r
        mem = self.merge_mem([(e[0], e[2]) for e in inc])
        newphi = {i.res: self.phi_val(i, inc) for i in self.phis(b)}
        if b in self.loops and it[self.inloops[b].index(b)] == 0:
            p = self.policy(b)
            if p[0] == 'cut': newphi, mem = self.cut(b, p, guard, env, mem, newphi)
        env.update(newphi)
        for i in self.f.blocks[b]:
            if i.op == 'phi': continue
            if i.op == 'br':
                if i.a[0] is None: return [(i.a[1], (guard, env, mem, b))]
                c = self.val('i1', i.a[0], env); c = simp(c)
                if self.fold and not is_true(c) and not is_false(c):
                    if self.entails(guard, c, True): c = T
                    elif self.entails(guard, Not(c), True): c = F
                if i.a[1] == i.a[2]: return [(i.a[1], (guard, env, mem, b))]
                return [(i.a[1], (simp(And(guard, c)), env, mem, b)), (i.a[2], (simp(And(guard, Not(c))), env, mem, b))]
            if i.op == 'switch':
                v = self.val(i.a[0], i.a[1], env); out = []; rest = guard; tg = {}
                for c, t in i.a[3]: tg[t] = Or(tg.get(t, F), v == BV(c, v.size()))
                dflt = And(guard, *[v != BV(c, v.size()) for c, t in i.a[3]])
                for t, c in tg.items(): out.append((t, (simp(And(guard, c)), env, mem, b)))
                out.append((i.a[2], (simp(dflt), env, mem, b))); return out
            if i.op == 'ret':
                self.rets.append((guard, None if i.a is None else self.val(i.a[0], i.a[1], env), mem, env)); return []
            if i.op == 'unreachable': return []
            guard = self.step(i, env, mem, guard)
            if guard is None: return []
        return []
    # ---- loops cut by invariants
    def cut(self, h, pol, guard, env, mem, entry):
        inv = pol[1]; wr = self.loop_writes(h, guard, env, mem, entry, pol)
        fresh = {}
        for k, v in entry.items():
            if isinstance(v, Ptr):
                # pointer induction variables: same region, arbitrary offset
                if len(v.alts) != 1: raise Unsupported('pointer phi with several targets')
                fresh[k] = Ptr([(T, v.alts[0][1], self.fresh('ptr', 64))])
            elif z3.is_bool(v): fresh[k] = self.fresh('h', 0)
            else: fresh[k] = self.fresh(k[1:], v.size())
        m2 = dict(mem)
        for r in wr:
            R = self.regions.get(r)
            if R is None: continue
            if R.kind in ('words', 'bytes'): self.nfresh += 1; m2[r] = z3.Array(f'{r}!{self.nfresh}', z3.BitVecSort(64), z3.BitVecSort(64 if R.kind == 'words' else 8))
            else: m2[r] = {o: (v if isinstance(v, tuple) else self.fresh('hv', 8)) for o, v in mem[r].items()}
        info = {'entry': entry, 'emem': mem, 'env': env, 'h': h, 'guard': guard}
        self.cutinfo = getattr(self, 'cutinfo', {}); self.cutinfo[h] = (inv, info, fresh, m2)
        for n, c in inv(self, info, entry, mem, 'check'): self.ob(f'loop {self.loop_name(h)}: invariant "{n}" holds on entry', guard, c, ('inv', h, n))
        for n, c in inv(self, info, fresh, m2, 'assume'): self.asm.append(Implies(guard, c))
        return fresh, m2
    def back_edge(self, h, node, e):
        g, env, mem, pb = e; inv, info, fresh, m2 = self.cutinfo[h]
        nxt = {i.res: self.val(i.a[0], dict((b, v) for v, b in i.a[1])[pb], env) for i in self.phis(h)}
        info['prev'] = fresh
        for n, c in inv(self, info, nxt, mem, 'check'): self.ob(f'loop {self.loop_name(h)}: invariant "{n}" is kept', g, c, ('inv', h, n))
        var = self.pol[h][2] if len(self.pol[h]) > 2 else None
        if var:
            a, b = var(self, info, fresh, m2), var(self, info, nxt, mem)
            self.ob(f'loop {self.loop_name(h)}: variant decreases', g, And(b < a, a >= 0), 'variant')
    def loop_writes(self, h, guard, env, mem, entry, pol):
        """regions that the loop may write: stores in its blocks whose pointers are resolved by a dry run"""
        if len(pol) > 3 and pol[3] is not None: return pol[3]
        has = any(i.op == 'store' or (i.op == 'call' and not self.pure_call(i.a[1])) for b in self.loops[h] for i in self.f.blocks[b])
        if not has: return set()
        return {r for r, R in self.regions.items() if R.writable and (R.kind in ('words', 'bytes'))} | {r for r in self.regions if self.regions[r].kind == 'cells' and self.regions[r].writable and self.alloca_written(r, h)}
    def pure_call(self, n): return n.startswith('llvm.') and not n.startswith(('llvm.memcpy', 'llvm.memset', 'llvm.memmove')) or any(c.pure for c in self.contracts if c.match(self.ir.dem.get(n, n)))
    def alloca_written(self, r, h):
        # conservative: an alloca whose address appears in a store/call/select/phi/gep inside the loop
        if not r.startswith('%'): return True
        nm = r.split('#')[0]
        derived = {nm}; ch = True
        while ch:
            ch = False
            for b, ins in self.f.blocks.items():
                for i in ins:
                    if i.res and i.res not in derived and i.op in ('getelementptr', 'select', 'phi', 'bitcast') and any(re.search(re.escape(d) + r'(?![\w.$-])', i.text.split('=', 1)[1]) for d in derived): derived.add(i.res); ch = True
        for b in self.loops[h]:
            for i in self.f.blocks[b]:
                if i.op == 'store' and i.a[2] in derived: return True
                if i.op == 'call' and 'lifetime' not in i.a[1] and any(t == 'ptr' and v in derived for t, v in i.a[2]): return True
        return False
    # ---- instructions
    def step(self, i, env, mem, guard):
        op, a = i.op, i.a
        if op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor'):
            x, y = self.val(a[0], a[1], env), self.val(a[0], a[2], env)
            if z3.is_bool(x): env[i.res] = {'and': And, 'or': Or, 'xor': lambda p, q: p != q, 'add': lambda p, q: p != q, 'sub': lambda p, q: p != q}[op](x, y); return guard
            if op == 'add': r = x + y
            elif op == 'sub': r = x - y
            elif op == 'mul': r = x * y if self.mul is None or const(x) is not None or const(y) is not None else self.mul(x, y)
            elif op == 'and': r = x & y
            elif op == 'or': r = x | y
            elif op == 'xor': r = x ^ y
            elif op in ('shl', 'lshr', 'ashr'):
                r = {'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y}[op]()
                c = const(y)
                if c is None and self.entails(guard, z3.ULT(y, BV(x.size(), x.size()))): pass
                elif c is None: r = z3.If(z3.ULT(y, BV(x.size(), x.size())), r, self.fresh('poison', x.size()))
                elif c >= x.size(): r = self.fresh('poison', x.size())
            elif op == 'udiv': r = z3.UDiv(x, y)
            elif op == 'urem': r = z3.URem(x, y)
            elif op in ('sdiv', 'srem'):
                c = const(y); n = x.size()
                if c and c & (c - 1) == 0 and c < (1 << (n - 1)):   # power of two: exact in shifts
                    k = c.bit_length() - 1
                    if self.entails(guard, x >= 0): env[i.res] = z3.LShR(x, k) if op == 'sdiv' else (x & BV(c - 1, n)); return guard
                    q = (x + (z3.LShR(x >> (n - 1), BV(n - k, n)) if k else BV(0, n))) >> k
                    r = q if op == 'sdiv' else x - (q << k)
                else: r = x / y if op == 'sdiv' else z3.SRem(x, y)
            env[i.res] = simp(r) if const(x) is not None and const(y) is not None else r
        elif op == 'icmp':
            p, ty, s, t = a; x, y = self.val(ty, s, env), self.val(ty, t, env)
            if isinstance(x, Ptr): env[i.res] = self.ptr_cmp(p, x, y)
            elif z3.is_bool(x): env[i.res] = (x == y) if p == 'eq' else (x != y)
            else: env[i.res] = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y, 'sge': lambda: x >= y}[p]()
        elif op in ('zext', 'sext', 'trunc'):
            x = self.val(a[0], a[1], env); n = int(a[2][1:])
            if z3.is_bool(x): r = z3.If(x, BV(1 if op == 'zext' else -1, n), BV(0, n)) if not is_true(x) and not is_false(x) else BV((1 if op == 'zext' else -1) if is_true(x) else 0, n)
            elif n == 1: r = z3.Extract(0, 0, x) == 1
            else: r = zx(x, n) if op != 'sext' else z3.SignExt(n - x.size(), x)
            env[i.res] = r
        elif op == 'freeze': env[i.res] = self.val(a[0], a[1], env)
        elif op == 'bitcast': env[i.res] = self.val(a[0], a[1], env)
        elif op == 'select':
            c = self.val('i1', a[0], env); x, y = self.val(a[1], a[2], env), self.val(a[1], a[3], env)
            env[i.res] = Ptr.ite(c, x, y) if isinstance(x, Ptr) else If(c, x, y)
        elif op == 'load': env[i.res] = self.load(mem, a[0], self.val('ptr', a[1], env), guard, i.text)
        elif op == 'store': self.store(mem, a[0], self.val(a[0], a[1], env), self.val('ptr', a[2], env), guard, i.text)
        elif op == 'getelementptr': env[i.res] = self.gep(a[0], self.val('ptr', a[1], env), a[2], env, guard, i.text)
        elif op == 'alloca':
            if a[1] is not None:
                env[i.res] = self.alloca_dyn(i, env, mem)
            else:
                r = i.res; self.regions[r] = Region(r, 'cells', BV(self.ir.size_align(a[0])[0], 64)); mem[r] = {}; env[i.res] = Ptr.to(r)
        elif op == 'extractvalue':
            v = self.val(a[0], a[1], env)
            env[i.res] = v[tuple(a[2])] if tuple(a[2]) in v else self.fresh('agg', 64)
        elif op == 'insertvalue':
            v = dict(self.val(a[0], a[1], env)); v[tuple(a[3])] = self.val(a[2][0], a[2][1], env); env[i.res] = v
        elif op == 'ptrtoint':
            p = self.val('ptr', a[1], env)
            if len(p.alts) != 1: raise Unsupported('ptrtoint')
            g, r, o = p.alts[0]; env[i.res] = (z3.BitVec(f'addr_{r}', 64) + o) if r else BV(0, 64)
        elif op == 'call': return self.call(i, env, mem, guard)
        elif op == 'unsupported' and a == 'fcmp':
            m = re.search(r'fcmp (\w+) (float|double) (\S+), (\S+)$', i.text); x, y = self.val(m[2], m[3], env), self.val(m[2], m[4], env)
            so = z3.Float32() if m[2] == 'float' else z3.Float64(); fx, fy = z3.fpBVToFP(x, so), z3.fpBVToFP(y, so)
            if m[1] == 'oeq': env[i.res] = z3.fpEQ(fx, fy)
            elif m[1] == 'une': env[i.res] = z3.Not(z3.fpEQ(fx, fy))
            else: raise Unsupported(i.text)
        else: raise Unsupported(i.text)
        return guard
    def alloca_dyn(self, i, env, mem):
        n = self.val(i.a[1][0], i.a[1][1], env); es = self.ir.size_align(i.a[0])[0]; r = i.res
        kind = 'words' if es == 8 else 'bytes'
        self.nfresh += 1; arr = z3.Array(f'{r}!{self.nfresh}', z3.BitVecSort(64), z3.BitVecSort(64 if kind == 'words' else 8))
        self.regions[r] = Region(r, kind, simp(zx(n, 64) * es)); mem[r] = arr; return Ptr.to(r)
    def ptr_cmp(self, p, x, y):
        r = F
        for g1, r1, o1 in x.alts:
            for g2, r2, o2 in y.alts:
                if r1 == r2: e = {'eq': o1 == o2, 'ne': o1 != o2, 'ult': z3.ULT(o1, o2), 'ule': z3.ULE(o1, o2), 'ugt': z3.UGT(o1, o2), 'uge': z3.UGE(o1, o2)}[p] if r1 else (T if p in ('eq', 'ule', 'uge') else F)
                elif p in ('eq', 'ne'): e = F if p == 'eq' else T
                else: raise Unsupported('pointer order')
                r = Or(r, And(g1, g2, e))
        return simp(r)
    def call(self, i, env, mem, guard):
        rt, name, args = i.a
        if name.startswith(('llvm.lifetime', 'llvm.experimental.noalias', 'llvm.dbg')): return guard
        vs = [self.val(t, v, env) if t != 'metadata' else None for t, v in args]
        d = self.ir.dem.get(name, name)
        for c in self.contracts:
            if c.match(d):
                self.used_contracts.add(c.name); env[i.res or '_'] = c.apply(self, vs, mem, guard, i.text, d); return guard
        if name == 'llvm.assume': self.asm.append(Implies(guard, vs[0])); return guard
        if name.startswith('llvm.ctpop'): r = ctpop(vs[0]) if self.popcount is None or vs[0].size() != 64 else self.popcount(vs[0])
        elif name.startswith('llvm.cttz'): r = cttz(vs[0])
        elif name.startswith('llvm.ctlz'): r = ctlz(vs[0])
        elif name.startswith('llvm.bswap'): r = simp(bswap(vs[0]))
        elif name.startswith('llvm.umin'): r = z3.If(z3.ULT(vs[0], vs[1]), vs[0], vs[1])
        elif name.startswith('llvm.umax'): r = z3.If(z3.UGT(vs[0], vs[1]), vs[0], vs[1])
        elif name.startswith('llvm.smin'): r = z3.If(vs[0] < vs[1], vs[0], vs[1])
        elif name.startswith('llvm.smax'): r = z3.If(vs[0] > vs[1], vs[0], vs[1])
        elif name.startswith('llvm.abs'): r = z3.If(vs[0] < 0, -vs[0], vs[0])
        elif name == 'llvm.x86.bmi.pdep.64': r = pdep(vs[0], vs[1])
        elif name.startswith('llvm.umul.with.overflow.i64'):
            w = z3.ZeroExt(64, vs[0]) * z3.ZeroExt(64, vs[1]); env[i.res] = {(0,): z3.Extract(63, 0, w), (1,): z3.Extract(127, 64, w) != 0}; return guard
        elif name.startswith(('llvm.memcpy', 'llvm.memmove')): self.memcpy(mem, vs[0], vs[1], vs[2], guard, i.text); return guard
        elif name.startswith('llvm.memset'): self.memset(mem, vs[0], vs[1], vs[2], guard, i.text); return guard
        elif name == 'memcmp': r = self.memcmp(mem, vs[0], vs[1], vs[2], guard, i.text)
        elif name == '__assert_fail': self.ob('assertion in the code holds', guard, F, 'assert', i.text); return None
        else: raise Unsupported('call to ' + d[:120])
        env[i.res] = r; return guard
    def memcpy(self, mem, d, s, n, guard, line):
        c = const(n)
        if len(d.alts) != 1 or len(s.alts) != 1: raise Unsupported('memcpy through several targets')
        (_, dr, do), (_, sr, so) = d.alts[0], s.alts[0]
        D = self.regions[dr]; S = self.regions[sr]
        if self.check_mem:
            for r, o, w in ((sr, so, 'read'), (dr, do, 'write')):
                R = self.regions[r]
                if w == 'write' and not R.writable: self.ob(f'no write to {r}', guard, F, 'frame', line)
                self.ob(f'memcpy {w} inside {r}', guard, Or(n == 0, And(z3.UGE(R.size, n), z3.ULE(o, R.size - n))), 'bounds', line)
        if self.written is not None: self.written.add(dr)
        if D.kind == 'cells' and c is None:      # variable length into a small object
            o = const(do); sz = const(D.size)
            if o is None: raise Unsupported('memcpy offset')
            m = dict(mem[dr])
            for k in range(sz - o):
                old = self.load_bytes({dr: m}, dr, BV(o + k, 64), 1)[0]
                m[o + k] = z3.If(z3.UGT(n, BV(k, 64)), self.load_bytes(mem, sr, so + k, 1)[0], old)
            mem[dr] = m
        elif c is not None and c <= 256:
            if S.kind == 'words' or D.kind == 'words':
                if S.kind == 'words' and D.kind == 'cells' and c == 8 or c == 4:
                    ty = f'i{8 * c}'; v = self.load(mem, ty, s, guard, line); self.store(mem, ty, v, d, guard, line); return
                if S.kind == 'words' and D.kind != 'words':
                    bs = []
                    for k in range(c):
                        w = z3.Select(mem[sr], simp(z3.LShR(so + k, 3))); lo = zx(z3.Extract(2, 0, simp(so + k)), 64) << 3; bs.append(simp(z3.Extract(7, 0, z3.LShR(w, lo))))
                else: raise Unsupported('memcpy into words')
            else:
                bs = self.load_bytes(mem, sr, so, c)
                if isinstance(bs, Ptr): self.store(mem, 'ptr', bs, d, guard, line); return
            if D.kind == 'cells':
                o = const(do); m = dict(mem[dr])
                if o is None: raise Unsupported('memcpy offset')
                for k in range(c): m[o + k] = bs[k]
                mem[dr] = m
            else:
                m = mem[dr]
                for k in range(c): m = z3.Store(m, simp(do + k), bs[k])
                mem[dr] = m
        elif D.kind == S.kind and D.kind in ('bytes', 'words'):
            j = z3.BitVec('j', 64)
            if D.kind == 'bytes': body = z3.If(z3.ULT(j - do, n), z3.Select(mem[sr], j - do + so), z3.Select(mem[dr], j))
            else: raise Unsupported('memcpy words')
            mem[dr] = z3.Lambda([j], body)
        else: raise Unsupported('memcpy')
    def memset(self, mem, d, v, n, guard, line):
        if len(d.alts) != 1: raise Unsupported('memset')
        _, r, o = d.alts[0]; R = self.regions[r]
        if self.check_mem: self.ob(f'memset inside {r}', guard, Or(n == 0, And(z3.UGE(R.size, n), z3.ULE(o, R.size - n))), 'bounds', line)
        if R.kind == 'cells' and const(n) is not None and const(o) is not None:
            m = dict(mem[r])
            for k in range(const(n)): m[const(o) + k] = v
            mem[r] = m
        elif R.kind == 'words' and const(o) == 0 and const(v) == 0:
            # whole object: n must cover it
            self.ob(f'memset covers {r}', guard, n == R.size, 'bounds', line)
            mem[r] = z3.K(z3.BitVecSort(64), BV(0, 64))
        elif R.kind == 'bytes':
            j = z3.BitVec('j', 64); mem[r] = z3.Lambda([j], z3.If(z3.ULT(j - o, n), v, z3.Select(mem[r], j)))
        else: raise Unsupported('memset')
    def memcmp(self, mem, p, q, n, guard, line):
        if len(p.alts) != 1 or len(q.alts) != 1: raise Unsupported('memcmp')
        (_, r1, o1), (_, r2, o2) = p.alts[0], q.alts[0]
        if self.check_mem:
            for r, o in ((r1, o1), (r2, o2)):
                R = self.regions[r]; self.ob(f'memcmp inside {r}', guard, Or(n == 0, And(z3.UGE(R.size, n), z3.ULE(o, R.size - n))), 'bounds', line)
        # result: sign of the first difference, described by a witness position w (C standard)
        res = self.fresh('memcmp', 32); w = self.fresh('memcmp_w', 64); j = self.fresh('mj', 64) if False else z3.BitVec('mj', 64)
        def by(r, o, k): return self.load_bytes(mem, r, simp(o + k), 1)[0] if self.regions[r].kind == 'bytes' else None
        if by(r1, o1, BV(0, 64)) is None or by(r2, o2, BV(0, 64)) is None: raise Unsupported('memcmp of cells')
        self.asm.append(z3.ULE(w, n))
        self.asm.append(z3.ForAll([j], z3.Implies(z3.ULT(j, w), by(r1, o1, j) == by(r2, o2, j))))
        self.asm.append(z3.Or(z3.And(w == n, res == 0), z3.And(z3.ULT(w, n), z3.Or(z3.And(z3.ULT(by(r1, o1, w), by(r2, o2, w)), res < 0), z3.And(z3.UGT(by(r1, o1, w), by(r2, o2, w)), res > 0)))))
        return res
