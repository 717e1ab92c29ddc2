"""Contracts of the filter's own operations: which store they use and with which infix.
The boundary tree is taken by an assumed contract (an ordered map; checked at run time under C16): a seek stops at the smallest boundary
key not below the argument, skip1/skip1_rev step to the next/previous one, peek gives the key and its store.
The functions on keys and stores are taken by the contracts proved in keys.py and query.py."""
from .store import *
from .query import B32, B64
from .keys import MAXB
KEYS = ('l', 'r', 'prev', 'next', 'next2')
EXTR = {k: z3.Function(f'extract_{k}', B32, B32, B32, B64, B64) for k in KEYS}
BITF = {k: z3.Function(f'bit_{k}', B32, B32) for k in KEYS}
PREF = {(a, b): z3.Function(f'prefix_{a}_{b}', B32, z3.BoolSort()) for a in KEYS for b in KEYS}
NEXT = 10
class Filter(Proof):
    timeout = 60; integer = False; joint = True; cost = 6; refute_cases = (); seek_key = 'l'; locks = True
    keep = (r'.*InfiniteByteString::(operator(<=|<|==|>=|>)\(|IsPrefixOf|GetBit)', r'.*::(GetSharedIgnoreImplicitLengths|ExtractPartialKey|RangeQueryInfixStore|PointQueryInfixStore|InsertRawIntoInfixStore|DeleteRawFromInfixStore|DeleteMerge|GetLongestMatchingInfixSize)\(', r'worm', r'wh_')
    def __init__(self):
        super().__init__(); C = Contract; w = 'wh_int_' if self.integer else 'wh_'; wl = 'wormleaf_int_' if self.integer else 'wormleaf_'
        self.contracts = (C('tree seek', w + 'iter_seek$', self.c_seek, False), C('tree step', w + 'iter_skip1(_rev)?$', None, False), C('tree peek', w + 'iter_peek_ref$', self.c_peek, False), C('tree unlock', wl + 'unlock_read$', self.c_unlock, False),
                          C('key order', r'.*InfiniteByteString::operator(<=|<|==|>=|>)\(', None), C('IsPrefixOf', r'.*InfiniteByteString::IsPrefixOf\(', self.c_prefix), C('GetBit', r'.*InfiniteByteString::GetBit\(', self.c_bit),
                          C('GetSharedIgnoreImplicitLengths', r'.*::GetSharedIgnoreImplicitLengths\(', self.c_sii, False), C('ExtractPartialKey', r'.*::ExtractPartialKey\(', self.c_extract),
                          C('RangeQueryInfixStore', r'.*::RangeQueryInfixStore\(', self.c_range), C('PointQueryInfixStore', r'.*::PointQueryInfixStore\(', self.c_point), C('GetLongestMatchingInfixSize', r'.*::GetLongestMatchingInfixSize\(', self.c_longest),
                          C('InsertRawIntoInfixStore', r'.*::InsertRawIntoInfixStore\(', self.c_insert, False), C('DeleteRawFromInfixStore', r'.*::DeleteRawFromInfixStore\(', self.c_delete, False), C('DeleteMerge', r'.*::DeleteMerge\(', self.c_merge, False))
        self.contracts[1].apply = lambda ex, a, mem, g, line, d: self.c_step(ex, a, mem, g, line, -1 if d.endswith('_rev') else 1)
        self.contracts[4].apply = lambda ex, a, mem, g, line, d: self.c_cmp(ex, a, mem, g, line, re.search(r'operator(<=|<|==|>=|>)\(', d)[1])
    def split(self, ex, o):
        if self.integer and o.name.startswith('RangeQueryInfixStore: ') and not o.name.endswith('length') and 'store' not in o.name.split(': ')[1]: return [And(self.im == i, z3.UGE(self.w, w), z3.ULT(self.w, w + 4)) for i in (10, 11) for w in range(1, 25, 4)]
    # --- state
    def setup(self, ex):
        o = offsets(self, ex); self.ex = ex; self.w = bits('w', 32); ex.assume(And(z3.ULE(self.w, 24), z3.UGE(self.w, 1)))
        base = z3.Array('diva', B64, B64); ex.region('diva', 'words', BV(o[9], 64), z3.Store(base, BV(o[0] // 8, 64), z3.Concat(bits('pad', 32), self.w)), writable=False); ex.regions['diva'].ptr_at = lambda off: Ptr.to('tree')
        ex.region('tree', 'cells', BV(1 << 12, 64), {0: ('ptr', Ptr.to('map'))}, writable=False); ex.region('map', 'cells', BV(64, 64), writable=False); ex.region('leaf', 'cells', BV(64, 64), writable=False)
        ex.region('ghost', 'cells', BV(64, 64), {i: BV(0, 8) for i in range(3)}); self.stores = {}; self.key = {}; self.len = {}
        for k in ('prev', 'next', 'next2'):
            self.key[k] = None; self.len[k] = bits(f'n_{k}', 32); ex.assume(z3.ULE(self.len[k], MAXB)); ex.region(k, 'bytes', zx(self.len[k], 64), writable=False)
            self.st(ex, o, 's_' + k)
        for k in KEYS[:2]:
            self.len[k] = bits(f'n_{k}', 32); ex.assume(z3.ULE(self.len[k], MAXB)); ex.region(k, 'bytes', zx(self.len[k], 64), writable=False)
        if self.integer:
            for k in KEYS: ex.assume(self.len[k] == 8)
        # order of the keys: prev < l <= next < next2, l <= r (the boundaries are consecutive keys of the tree)
        self.P = {}; self.le = {}; I = {k: z3.Int(f'ord_{k}') for k in KEYS}; self.I = I
        if self.integer: I = self.I = {k: self.num(ex, k) for k in KEYS}; lt, le = z3.ULT, z3.ULE
        else: lt, le = (lambda a, b: a < b), (lambda a, b: a <= b)
        self.LT, self.LE = lt, le
        ex.assume(And(lt(I['prev'], I['l']), le(I['l'], I['next']), lt(I['next'], I['next2']), le(I['l'], I['r'])))
        self.sh, self.ig, self.im = bits('shared', 32), bits('ignore', 32), bits('implicit', 32); ex.assume(And(z3.UGE(self.im, 10), z3.ULE(self.im, 11), z3.ULT(self.sh, 1 << 27), z3.ULT(self.ig, 1 << 27)))
        if self.integer: ex.assume(z3.ULE(self.sh + self.ig, 63))
        self.more(ex)
        return [Ptr.to('diva')] + self.params(ex)
    def more(self, ex): pass
    def num(self, ex, k): return z3.Concat(*[z3.Select(ex.mem[k], BV(i, 64)) for i in range(8)])
    def st(self, ex, o, n):
        st = {o[8]: ('ptr', Ptr.ite(z3.Bool(n + '_has'), Ptr.to('mem_' + n), NULL))}
        for i in range(4): st[o[7] + i] = z3.BitVec(f'{n}@{o[7] + i}', 8)
        ex.region(n, 'cells', BV(o[10], 64), st, writable=False); ex.region('mem_' + n, 'words', BV(8, 64), writable=False); self.stores[n] = cell32(st, o[7])
    def karg(self, k): return [Ptr.to(k), self.len[k]]
    # --- which object
    def feasible(self, ex, g):
        if is_true(g): return True
        s = z3.Solver(); s.set('timeout', 5000); s.add(*ex.asm); s.add(g); return str(s.check()) != 'unsat'
    def one(self, ex, p, g, what, line):
        al = [(c, r, o) for c, r, o in p.alts if not is_false(simp(And(g, c)))]
        if len(al) > 1: al = [(c, r, o) for c, r, o in al if self.feasible(ex, And(g, c))]
        if not al: return None
        if len(al) > 1: raise Unsupported(f'{what}: several objects')
        c, r, o = al[0]
        if r is None or const(o) != 0: ex.ob(f'{what}: a valid object', And(g, c), F, 'pre', line); return None
        return r
    def kid(self, ex, p, mem, g, line, what):
        """the key that an InfiniteByteString object holds"""
        r = self.one(ex, p, g, what, line)
        if r is None: return None
        v = mem[r].get(0)
        if not isinstance(v, tuple): raise Unsupported('key object')
        k = self.one(ex, v[1], g, what, line)
        if k is None: return None
        if k not in KEYS: raise Unsupported(f'{what}: not a key')
        ex.ob(f'{what}: the key has its own length', g, cell32(mem[r], 8) == self.len[k], 'pre', line); return k
    def gh(self, mem, i): return mem['ghost'][i]
    def setgh(self, mem, i, v): m = dict(mem['ghost']); m[i] = simp(v); mem['ghost'] = m
    # --- the tree
    def it(self, ex, p, g, line): return self.one(ex, p, g, 'tree iterator', line)
    def c_seek(self, ex, a, mem, g, line):
        r = self.it(ex, a[0], g, line); k = self.one(ex, a[1], g, 'seek key', line)
        ex.ob('tree seek: iterator set up with the filter\'s tree and no leaf', g, self.fresh_it(mem[r]), 'pre', line); ex.ob('tree seek: for the query key', g, z3.BoolVal(k == self.seek_key) if k else F, 'pre', line)
        ex.ob('tree seek: with the key\'s length', g, a[2] == self.len[self.seek_key], 'pre', line); self.setgh(mem, 0, BV(NEXT, 8)); self.leaf(ex, mem, r, 0)
    def fresh_it(self, m):
        def at(o, r): v = m.get(o); return isinstance(v, tuple) and len(v[1].alts) == 1 and v[1].alts[0][1] == r
        return z3.BoolVal(at(0, 'tree') and at(8, 'map') and at(16, None)) if all(isinstance(m.get(o), tuple) for o in (0, 8, 16)) else F
    def leaf(self, ex, mem, r, n):
        h = ex.fresh('has_leaf', 0); m = dict(mem[r]); m[16] = ('ptr', Ptr.ite(h, Ptr.to('leaf'), NULL)); mem[r] = m; self.setgh(mem, 1, z3.If(h, BV(1, 8), BV(0, 8)))
    def c_step(self, ex, a, mem, g, line, d): r = self.it(ex, a[0], g, line); ex.ob('tree step: after a seek', g, self.gh(mem, 0) != 0, 'pre', line); self.setgh(mem, 0, self.gh(mem, 0) + d); self.leaf(ex, mem, r, 1)
    def c_peek(self, ex, a, mem, g, line):
        s = self.gh(mem, 0); ex.ob('tree peek: at a boundary key around the query key', g, Or(*[s == NEXT + i for i in (-1, 0, 1)]), 'pre', line)
        n = {NEXT - 1: 'prev', NEXT: 'next', NEXT + 1: 'next2'}
        if const(s) is None:
            pick = lambda f: Ptr.ite(s == NEXT, Ptr.to(f('next')), Ptr.ite(s == NEXT - 1, Ptr.to(f('prev')), Ptr.to(f('next2')))); L = z3.If(s == NEXT, self.len['next'], z3.If(s == NEXT - 1, self.len['prev'], self.len['next2'])); P, S = pick(lambda k: k), pick(lambda k: 's_' + k)
        else: k = n.get(const(s), 'next'); P, S, L = Ptr.to(k), Ptr.to('s_' + k), self.len[k]
        ex.store(mem, 'ptr', P, a[1], g, line); ex.store(mem, 'i32', L, a[2], g, line); ex.store(mem, 'ptr', S, a[3], g, line); ex.store(mem, 'i32', ex.fresh('dummy', 32), a[4], g, line)
    def c_unlock(self, ex, a, mem, g, line): ex.ob('tree unlock: of the locked leaf', g, self.gh(mem, 1) == 1, 'pre', line); self.setgh(mem, 1, BV(0, 8))
    # --- keys
    def c_cmp(self, ex, a, mem, g, line, op):
        x, y = self.kid(ex, a[0], mem, g, line, 'comparison'), self.kid(ex, a[1], mem, g, line, 'comparison')
        if x is None or y is None: return ex.fresh('cmp', 0)
        return self.cmp(x, y, op)
    def cmp(self, x, y, op): u, v = self.I[x], self.I[y]; return {'<=': self.LE(u, v), '<': self.LT(u, v), '==': u == v, '>=': self.LE(v, u), '>': self.LT(v, u)}[op]
    def c_prefix(self, ex, a, mem, g, line):
        x, y = self.kid(ex, a[0], mem, g, line, 'IsPrefixOf'), self.kid(ex, a[1], mem, g, line, 'IsPrefixOf'); return PREF[x, y](a[2]) if x and y else ex.fresh('prefix', 0)
    def c_bit(self, ex, a, mem, g, line): k = self.kid(ex, a[0], mem, g, line, 'GetBit'); return self.bit(k, a[1]) if k else ex.fresh('bit', 32)
    def bit(self, k, i):
        if not self.integer: return BITF[k](i) & 1
        return z3.If(z3.ULT(i, 64), EX(31, 0, z3.LShR(self.I[k], 63 - zx(i, 64)) & 1), BV(0, 32))
    pair = ('prev', 'next')
    def c_sii(self, ex, a, mem, g, line):
        x, y = self.kid(ex, a[2], mem, g, line, 'GetSharedIgnoreImplicitLengths'), self.kid(ex, a[3], mem, g, line, 'GetSharedIgnoreImplicitLengths')
        ex.ob('GetSharedIgnoreImplicitLengths: of the boundaries around the key', g, self.pairok(x, y, mem), 'pre', line)
        for off, v in ((8, self.sh), (4, self.ig), (0, self.im)): ex.store(mem, 'i32', v, a[0].add(off), g, line)      # a std::tuple is stored last element first
    def pairok(self, x, y, mem): return z3.BoolVal((x, y) == self.pair)
    def c_extract(self, ex, a, mem, g, line):
        k = self.kid(ex, a[1], mem, g, line, 'ExtractPartialKey'); ex.ob('ExtractPartialKey: with the lengths of the boundaries', g, And(a[2] == self.sh, a[3] == self.ig, a[4] == self.im), 'pre', line); ex.ob('ExtractPartialKey: msb is a bit', g, z3.ULE(a[5], 1), 'pre', line)
        return self.extract(k, a[5]) if k else ex.fresh('extract', 64)
    def extract(self, k, msb):
        if not self.integer: return EXTR[k](self.sh, self.ig, self.im, msb)
        L = zx(self.im - 1 + self.w, 128); v = z3.Concat(self.I[k], BV(0, 64)) << zx(self.sh + self.ig + 1, 128); return (msb << zx(L, 64)) | EX(63, 0, z3.LShR(v, 128 - L))
    # --- specification of the infixes
    def E(self, k): return self.extract(k, {'prev': BV(0, 64), 'next': BV(1, 64)}[k] if k in self.pair2() else zx(self.bit(k, self.sh), 64))
    def pair2(self): return self.pair
    def base(self): return z3.LShR(self.extract(self.pair[0], BV(0, 64)), zx(self.w, 64))
    def total(self): return EX(31, 0, z3.LShR(self.extract(self.pair[1], BV(1, 64)), zx(self.w, 64)) - self.base() + 1)
    def infix(self, k): return (self.extract(k, zx(self.bit(k, self.sh), 64)) | 1) - (self.base() << zx(self.w, 64))
    def raw(self, k): return self.extract(k, zx(self.bit(k, self.sh), 64)) - (self.base() << zx(self.w, 64))
    # --- stores
    def store_is(self, ex, p, g, want, line, what): r = self.one(ex, p, g, what, line); ex.ob(f'{what}: on the store of the boundary below the key', g, z3.BoolVal(r == want) if r else F, 'pre', line)
    def unexpected(self, n):
        def f(*a): raise Unsupported(f'{n} called here')
        return f
    def c_range(self, ex, a, mem, g, line): return self.unexpected('RangeQueryInfixStore')(ex, a, mem, g, line)
    def c_point(self, ex, a, mem, g, line): return self.unexpected('PointQueryInfixStore')(ex, a, mem, g, line)
    def c_insert(self, ex, a, mem, g, line): return self.unexpected('InsertRawIntoInfixStore')(ex, a, mem, g, line)
    def c_delete(self, ex, a, mem, g, line): return self.unexpected('DeleteRawFromInfixStore')(ex, a, mem, g, line)
    def c_merge(self, ex, a, mem, g, line): return self.unexpected('DeleteMerge')(ex, a, mem, g, line)
    def c_longest(self, ex, a, mem, g, line): return self.unexpected('GetLongestMatchingInfixSize')()
    def unlocked(self, mem): return [('the tree is left unlocked', self.gh(mem, 1) == 0)]
RQ = z3.Function('range_query', B64, B64, B32, z3.BoolSort()); PQ = z3.Function('point_query', B64, B32, z3.BoolSort())
class RangeQ(Filter):
    def params(self, ex): return self.karg('l') + self.karg('r')
    def c_range(self, ex, a, mem, g, line):
        self.store_is(ex, a[1], g, 's_prev', line, 'RangeQueryInfixStore'); want = (self.infix('l'), self.infix('r'), self.total())
        if self.integer:
            for n, x, y in zip(('left infix', 'right infix', 'group count'), a[2:], want): ex.ob(f'RangeQueryInfixStore: {n}', g, x == y, 'pre', line); ex.assume(Implies(g, x == y))
        return RQ(*want) if self.integer else RQ(a[2], a[3], a[4])
    def post(self, ex, ret, mem):
        s = self.stores['s_prev']; inv = z3.LShR(s, 28) & 7; has = z3.Bool('s_prev_has')
        return [('the answer: a boundary key in the range, or the store between the boundaries has an element that meets it', ret == Or(self.cmp('next', 'r', '<='), And(has, Or(And(z3.LShR(s, 31) == 1, PREF['prev', 'l'](inv)), RQ(self.infix('l'), self.infix('r'), self.total())))))] + self.unlocked(mem)
class PointQ(Filter):
    def params(self, ex): return self.karg('l')
    def more(self, ex): ex.assume(z3.Bool('s_prev_has'))
    def c_range(self, ex, a, mem, g, line): self.store_is(ex, a[1], g, 's_prev', line, 'RangeQueryInfixStore'); ex.ob('RangeQueryInfixStore: for one infix (lemma: then it is the point query)', g, a[2] | 1 == a[3] | 1, 'pre', line); return PQ(a[2] | 1, a[4])
    def c_point(self, ex, a, mem, g, line): self.store_is(ex, a[1], g, 's_prev', line, 'PointQueryInfixStore'); return PQ(a[2] | 1, a[3])     # the lowest bit of the infix does not matter (lemma: every element has its marker bit at or above it)
    def post(self, ex, ret, mem):
        s = self.stores['s_prev']; inv = z3.LShR(s, 28) & 7
        return [('the answer: the key is a boundary key, or the store between the boundaries has an element that covers it', ret == Or(self.cmp('next', 'l', '=='), And(z3.LShR(s, 31) == 1, PREF['prev', 'l'](inv)), PQ(self.infix('l'), self.total())))] + self.unlocked(mem)
LONG = z3.Function('longest_match', B64, B32)
class Change(Filter):
    cases = ('below', 'equal')
    def params(self, ex): return self.karg('l')
    def more(self, ex):
        eq = self.case == 'equal'; self.pair = ('next', 'next2') if eq else ('prev', 'next'); self.own = 's_' + self.pair[0]; c = self.cmp('next', 'l', '=='); ex.assume(c if eq else Not(c))
    def call(self, ex, mem, g, line, n, what): ex.ob(f'{what}: called once', g, self.gh(mem, 2) == 0, 'pre', line); self.setgh(mem, 2, BV(n, 8))
    def right(self, ex, a, g, line, what): self.store_is(ex, a[1], g, self.own, line, what); ex.ob(f'{what}: with the infix of the key', g, a[2] == self.infix('l'), 'pre', line)
    def groups(self, ex, a, g, line, what): ex.ob(f'{what}: with the number of groups between the boundaries', g, a[3] == self.total(), 'pre', line)
    def c_insert(self, ex, a, mem, g, line): w = 'InsertRawIntoInfixStore'; self.right(ex, a, g, line, w); self.groups(ex, a, g, line, w); self.call(ex, mem, g, line, 1, w)
class Insert(Change):
    def post(self, ex, ret, mem): return [('one infix is inserted', self.gh(mem, 2) == 1)] + self.unlocked(mem)
class Delete(Change):
    def c_longest(self, ex, a, mem, g, line): self.right(ex, a, g, line, 'GetLongestMatchingInfixSize'); return LONG(a[2])
    def c_delete(self, ex, a, mem, g, line): w = 'DeleteRawFromInfixStore'; self.right(ex, a, g, line, w); self.groups(ex, a, g, line, w); self.call(ex, mem, g, line, 1, w)
    def c_merge(self, ex, a, mem, g, line):
        w = 'DeleteMerge'; r = self.it(ex, a[1], g, line); ex.ob(f'{w}: at the boundary key to remove', g, self.gh(mem, 0) == (NEXT if self.case == 'equal' else NEXT - 1), 'pre', line)
        self.call(ex, mem, g, line, 2, w); self.setgh(mem, 1, BV(0, 8))      # DeleteMerge unlocks the leaf (its own code; run-time checked)
    def post(self, ex, ret, mem):
        # a boundary key itself, or a key under a partial boundary key that is longer than the longest matching infix
        s = self.stores[self.own]; part = z3.LShR(s, 31) == 1; inv = z3.LShR(s, 28) & 7; k = self.pair[0]; n = LONG(self.infix('l')); eq = z3.BoolVal(self.case == 'equal')
        merge = Or(And(eq, Not(part)), And(part, PREF[k, 'l'](inv), Or(n == 0, z3.UGT(8 * self.len[k] - inv, self.sh + self.ig + self.im + n - 1))))
        return [('the boundary key is removed if the key is stored in it, otherwise its infix is removed', self.gh(mem, 2) == z3.If(merge, BV(2, 8), BV(1, 8)))] + self.unlocked(mem)
for gen, nm in ((False, 'general'), (True, 'integer')):
    proof(type(f'RangeQ_{nm}', (RangeQ,), dict(integer=gen, heavy=gen, quick=('C06', 'C13'), cost=70 if gen else 6, name=f'RangeQuery ({nm} filter)', entry='dv_range_int' if gen else 'dv_range_gen', props=('C06', 'C13', 'C14', 'C01', 'C15'), about='which boundaries, which store and which infixes decide the answer; reads only, leaves the tree unlocked' + ('; the inline integer arithmetic equals ExtractPartialKey on 8-byte keys' if gen else ''))))
    proof(type(f'PointQ_{nm}', (PointQ,), dict(integer=gen, name=f'PointQuery ({nm} filter)', entry='dv_point_int' if gen else 'dv_point_gen', props=('C06', 'C13', 'C14', 'C01', 'C15'), about='which boundaries, which store and which infix decide the answer; reads only, leaves the tree unlocked')))
    proof(type(f'Insert_{nm}', (Insert,), dict(integer=gen, name=f'InsertSimple ({nm} filter)', entry='dv_simple_int' if gen else 'dv_simple_gen', props=('C01', 'C13', 'C11', 'C15'), about='exactly one infix, the one of the key, is inserted into the store of the boundary at or below the key; the tree is left unlocked')))
    proof(type(f'Delete_{nm}', (Delete,), dict(integer=gen, name=f'Delete ({nm} filter)', entry='dv_delete_int' if gen else 'dv_delete_gen', props=('C02', 'C13', 'C15'), about='either the key\'s infix is removed from the store of the boundary at or below the key, or that boundary key itself, exactly when the key is stored in it; the tree is left unlocked')))
# ------------------------------------------------------------------ integer and string_view interfaces
class Wrapper(Proof):
    """the interface for integers / string views calls the one for bytes, once, with the key's bytes"""
    timeout = 30; joint = True; refute_cases = (); keep = (r'.*::(Insert|Delete|PointQuery|RangeQuery|BulkLoadStreaming)\(unsigned char const\*',); props = ('C13', 'C05', 'C06'); sv = False; nkeys = 1; op = ''; query = False
    def __init__(self):
        super().__init__(); self.contracts = (Contract(f'{self.op}(bytes)', r'.*::%s\(unsigned char const\*' % self.op, self.c_call, self.query),)
    def setup(self, ex):
        o = offsets(self, ex); ex.region('diva', 'words', BV(o[9], 64), writable=False); ex.region('ghost', 'cells', BV(64, 64), {0: BV(0, 8)}); r = [Ptr.to('diva')]; self.k = []
        for i in range(self.nkeys):
            if self.sv: n = bits(f'n{i}', 64); ex.assume(z3.ULE(n, MAXB)); ex.region(f'key{i}', 'bytes', n, writable=False); self.k.append(n); r += [Ptr.to(f'key{i}'), n]
            else: v = bits(f'k{i}', 64); self.k.append(v); r.append(v)
        self.res = z3.Bool('answer'); return r
    def c_call(self, ex, a, mem, g, line):
        o = lambda n, c: ex.ob(f'{self.op}(bytes): {n}', g, c, 'pre', line); o('called once', mem['ghost'][0] == 0); m = dict(mem['ghost']); m[0] = BV(1, 8); mem['ghost'] = m
        for i in range(self.nkeys):
            p, n = a[1 + 2 * i], a[2 + 2 * i]
            if self.sv: o('with the bytes of the key', z3.BoolVal(len(p.alts) == 1 and p.alts[0][1] == f'key{i}' and const(simp(p.alts[0][2])) == 0)); o('with the length of the key', n == EX(31, 0, self.k[i]))
            else: o('with length 8', n == 8); o('with the big-endian bytes of the key', z3.And(*[ex.load(mem, 'i8', p.add(j), g, line) == EX(63 - 8 * j, 56 - 8 * j, self.k[i]) for j in range(8)]))
        return self.res if self.query else None
    def post(self, ex, ret, mem): return [('the operation on bytes is called', mem['ghost'][0] == 1)] + ([('its answer is returned', ret == self.res)] if self.query else [])
for gen, fl in (('gen', 'general'), ('int', 'integer')):
    for en, op, nk, qu in (('insert', 'Insert', 1, False), ('delete', 'Delete', 1, False), ('point', 'PointQuery', 1, True), ('range', 'RangeQuery', 2, True), ('bulk', 'BulkLoadStreaming', 1, False)):
        for sv in (False, True):
            proof(type(f'W_{en}_{gen}_{sv}', (Wrapper,), dict(sv=sv, op=op, nkeys=nk, query=qu, entry=f'dv_{"sv" if sv else "u64"}_{en}_{gen}', name=f'{op}({"string_view" if sv else "uint64_t"}) ({fl} filter)', about='calls the operation on bytes exactly once with ' + ('the bytes and length of the view' if sv else 'the eight big-endian bytes of the integer') + (' and returns its answer' if qu else ''))))
