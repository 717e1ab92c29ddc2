"""Contracts of the key functions: keys are byte strings, extended with zero bits."""
from .store import *
MAXB = 1 << 24                     # keys of up to 16 MB
def key(self, ex, name):
    n = z3.BitVec(name + '_len', 32)
    if self.refute: ex.assume(z3.ULE(n, 20)); a = z3.K(z3.BitVecSort(64), BV(0, 8)); 
    if self.refute:
        for i in range(20): a = z3.Store(a, BV(i, 64), z3.BitVec(f'{name}{i}', 8))
    ex.assume(And(z3.ULE(n, MAXB), z3.UGE(n, 1))); m = ex.region(name, 'bytes', zx(n, 64), writable=False, init=a if self.refute else None); return Ptr.to(name), n, m
def by(m, n, k):
    """byte k of the zero-extended key (k: 64 bits wide)"""
    return z3.If(z3.ULT(k, zx(n, 64)), z3.Select(m, k), BV(0, 8))
def kbit(m, n, x):
    """bit x of the zero-extended key, most significant first"""
    x = zx(x, 64); return EX(0, 0, z3.LShR(by(m, n, z3.LShR(x, 3)), 7 - zx(EX(2, 0, x), 8)))
class Key(Proof):
    timeout = 60; props = ('C11', 'C13', 'C12', 'C15')
    def setup(self, ex): self.kp, self.n, self.k = key(self, ex, 'key'); return [self.kp, self.n] + self.args(ex)
@proof
class WordAt(Key):
    name = 'WordAt'; entry = 'dv_word_at'; about = 'the 8 bytes from byte_pos of the zero-extended key as a big-endian number; reads only inside the key'
    def args(self, ex): self.p = bits('pos', 32); return [self.p]
    def post(self, ex, ret, mem): return [(f'byte {i}', EX(63 - 8 * i, 56 - 8 * i, ret) == by(self.k, self.n, zx(self.p, 64) + i)) for i in range(8)]
@proof
class BitsAt(Key):
    name = 'BitsAt'; entry = 'dv_bits_at'; about = 'the res_width bits from bit_pos of the zero-extended key, for every key, position and width 1..57'
    def args(self, ex): self.p, self.w = bits('pos', 32), bits('width', 32); ex.assume(And(z3.UGE(self.w, 1), z3.ULE(self.w, 57))); return [self.p, self.w]
    def post(self, ex, ret, mem):
        return [('bit j of the result', Implies(z3.ULT(j32, self.w), EX(0, 0, z3.LShR(ret, zx(self.w - 1 - j32, 64))) == kbit(self.k, self.n, zx(self.p, 64) + zx(j32, 64)))), ('no other bits', z3.LShR(ret, zx(self.w, 64)) == 0)]
@proof
class GetBit(Key):
    name = 'GetBit'; entry = 'dv_get_bit'; about = 'bit pos of the zero-extended key'
    def args(self, ex): self.p = bits('pos', 32); return [self.p]
    def post(self, ex, ret, mem): return [('value', ret == zx(kbit(self.k, self.n, self.p), 32))]
@proof
class Extract(Key):
    name = 'ExtractPartialKey'; entry = 'dv_extract'; props = ('C11', 'C13', 'C06', 'C01', 'C12', 'C15')
    about = 'msb followed by the implicit_size - 1 + infix_size_ key bits after position shared + ignore, for every key, offset, infix size 1..46 and implicit size 1..11'
    def setup(self, ex):
        o = offsets(self, ex); self.w = bits('w', 32); ex.assume(And(z3.ULE(self.w, 46), z3.UGE(self.w, 1)))
        base = z3.Array('diva', z3.BitVecSort(64), z3.BitVecSort(64)) if not self.refute else z3.K(z3.BitVecSort(64), BV(0, 64)); ex.region('diva', 'words', BV(o[9], 64), z3.Store(base, BV(o[0] // 8, 64), z3.Concat(BV(0, 32), self.w)), writable=False)
        kp, self.n, self.k = key(self, ex, 'key'); self.sh, self.ig, self.im, self.msb = bits('shared', 32), bits('ignore', 32), bits('implicit', 32), bits('msb', 64)
        for c in (z3.ULT(self.sh, 1 << 27), z3.ULT(self.ig, 1 << 27), z3.ULE(self.im, 11), z3.UGE(self.im, 1), z3.ULE(self.msb, 1)): ex.assume(c)
        return [Ptr.to('diva'), kp, self.n, self.sh, self.ig, self.im, self.msb]
    def post(self, ex, ret, mem):
        d = zx(self.sh, 64) + zx(self.ig, 64); L = self.im - 1 + self.w
        return [('the bits after the boundaries\' shared and ignored bits', Implies(z3.ULT(j32, L), EX(0, 0, z3.LShR(ret, zx(j32, 64))) == kbit(self.k, self.n, d + zx(L - j32, 64)))), ('msb on top', z3.LShR(ret, zx(L, 64)) == self.msb)]

# WordAt and BitsAt by contract: a key is a function from word index to 64-bit word
KW = {n: z3.Function(f'{n}_word', z3.BitVecSort(32), z3.BitVecSort(64)) for n in ('key1', 'key2')}
def kb(name, x):
    """bit x of the zero-extended key"""
    return EX(0, 0, z3.LShR(KW[name](z3.LShR(x, 6)), 63 - zx(x & 63, 64)))
def which(ex, p, mem):
    (_, r, o), = p.alts; v = mem[r].get(const(o)); return v[1].alts[0][1]
def BF(name, w):
    """the w bits from a position of the key, as a function of the position (the contract of BitsAt says what it is)"""
    return z3.Function(f'{name}_bits{w}', z3.BitVecSort(32), z3.BitVecSort(w))
def word_contract(ex, a, mem, g, line):
    n = which(ex, a[0], mem); ex.ob('WordAt: called at a multiple of 8 bytes', g, a[1] & 7 == 0, 'pre', line); return KW[n](z3.LShR(a[1], 3))
def bits_contract(ex, a, mem, g, line):
    n = which(ex, a[0], mem); w = const(a[2])
    if w is None or w > 57: raise Unsupported('BitsAt width')
    return zx(BF(n, w)(a[1]), 64)
WORDAT = Contract('WordAt', r'.*InfiniteByteString::WordAt\(', word_contract); BITSAT = Contract('BitsAt', r'.*InfiniteByteString::BitsAt\(', bits_contract)
@proof
class SII(Proof):
    name = 'GetSharedIgnoreImplicitLengths'; entry = 'dv_sii'; props = ('C11', 'C13', 'C06', 'C01'); timeout = 60; joint = True; cost = 15
    keep = (r'.*InfiniteByteString::WordAt\(', r'.*InfiniteByteString::BitsAt\('); contracts = (WORDAT, BITSAT); unroll = 4
    about = 'shared = length of the common prefix; ignored = number of following positions where the left key has 1 and the right key 0; implicit size 10, or 11 when fewer than 512 groups would result; for every two different keys of any length (loops cut by invariants)'
    def setup(self, ex):
        o = offsets(self, ex)
        if self.refute:
            a, n1, m1 = key(self, ex, 'key1'); b, n2, m2 = key(self, ex, 'key2'); self.kb = lambda k, x: kbit(m1, n1, x) if k == 'key1' else kbit(m2, n2, x)
        else:
            self.kb = kb; a = b = None
            for k in ('key1', 'key2'): ex.region(k, 'bytes', BV(MAXB, 64), writable=False)
            a, b = Ptr.to('key1'), Ptr.to('key2'); n1, n2 = bits('n1', 32), bits('n2', 32)
        ex.region('out', 'cells', BV(12, 64), {i: z3.BitVec(f'out@{i}', 8) for i in range(12)}); ex.region('diva', 'words', BV(o[9], 64), writable=False, init=small(2) if self.refute else None)
        # the keys differ somewhere (at bit D), and after that there is a position (at bit D2) where the left key has a 0
        self.D, self.D2 = bits('D', 32), bits('D2', 32); D, D2 = self.D, self.D2
        ex.assume(And(z3.ULT(D, D2), z3.ULT(D2, 1 << 28), self.kb('key1', D) != self.kb('key2', D), self.kb('key1', D2) == 0)); return [Ptr.to('diva'), a, n1, b, n2, Ptr.to('out')]
    def policy(self, ex, h):
        def inv(ex, info, cur, mem, mode):
            out = []; ent = info['entry']; x = EX(31, 0, q); ks = [k for k, v in cur.items() if z3.is_bv(v) and v.size() == 32]
            def cand(n, c):
                if (h, n) not in self.dropped: out.append((n, c))
            for a in ks:
                v = cur[a]; cand(f'64 {a} <= D', z3.ULE(v * 64, self.D) if True else T); cand(f'{a} <= D', z3.ULE(v, self.D)); cand(f'64 {a} <= D2', And(z3.ULE(v * 64, self.D2), z3.ULT(v, 1 << 22))); cand(f'{a} small', z3.ULT(v, 1 << 29)); cand(f'{a} >= entry', z3.UGE(v, ent[a]))
                cand(f'{a} common prefix', Implies(z3.ULT(x, v), kb('key1', x) == kb('key2', x)))
                for b in ks:
                    if a != b: cand(f'{a} = 64 {b}', v == 64 * cur[b])
                # second loop: against every value known at entry
                for s in self.known(info):
                    for b in ks:
                        if a != b: cand(f'{s[0]} + 1 + {a} = 64 {b} or start', Or(v + s[1] + 1 == 64 * cur[b], And(cur[b] == ent[b], v == ent[a])))
                    cand(f'ones over zeros after {s[0]} for {a}', Implies(And(z3.ULT(s[1], x), z3.ULE(x, s[1] + v)), And(kb('key1', x) == 1, kb('key2', x) == 0)))
            return out
        return ('cut', inv)
    def known(self, info):
        env = info['env']; return [(k, v) for k, v in env.items() if z3.is_expr(v) and z3.is_bv(v) and v.size() == 32 and const(v) is None][:12]
    def post(self, ex, ret, mem):
        r = [z3.Concat(*[mem['out'][4 * k + i] for i in (3, 2, 1, 0)]) for k in range(3)]; sh, ig, im = r; x = EX(31, 0, q); k1, k2 = (lambda y: self.kb('key1', y)), (lambda y: self.kb('key2', y)); p = sh + ig + 1
        b9 = (lambda k: z3.Concat(*[self.kb(k, p + i) for i in range(9)])) if self.refute else (lambda k: BF(k, 9)(p))
        i1 = zx(b9('key1'), 64); i2 = zx(b9('key2'), 64) | 512
        return [('everything before shared is common', Implies(z3.ULT(x, sh), k1(x) == k2(x))), ('the keys differ at shared', k1(sh) != k2(sh)), ('ignored positions: 1 in the left key, 0 in the right key', Implies(And(z3.ULT(sh, x), z3.ULE(x, sh + ig)), And(k1(x) == 1, k2(x) == 0))),
                ('the position after the ignored ones is different', Not(And(k1(p) == 1, k2(p) == 0))), ('implicit size', im == z3.If(z3.ULT(2 * (i2 - i1 + 1), 1024), BV(11, 32), BV(10, 32)))]

class Lemma(Proof):
    """a consequence of the contracts alone (no code): one SMT query"""
    entry = 'dv_bit_rank'; lemma = True
    def formula(self): raise NotImplementedError
@proof
class Order(Lemma):
    name = 'lemma: extraction preserves order'; props = ('C11', 'C06', 'C01')
    about = 'from the contracts of GetSharedIgnoreImplicitLengths and ExtractPartialKey: for boundaries a < b and keys a <= x <= y <= b, the infix of x is at most that of y, and both lie between those of a and b (keys as sequences: bit shared, ignored bits, extracted bits, rest)'
    def formula(self):
        I = z3.Ints('b0 b1 b2 b3 i0 i1 i2 i3 e0 e1 e2 e3 r0 r1 r2 r3 M E'); b, i, e, r, (M, E) = I[0:4], I[4:8], I[8:12], I[12:16], I[16:]
        def le(u, v): return z3.Or(b[u] < b[v], z3.And(b[u] == b[v], z3.Or(i[u] < i[v], z3.And(i[u] == i[v], z3.Or(e[u] < e[v], z3.And(e[u] == e[v], r[u] <= r[v]))))))
        hyp = [M >= 1, E >= 1] + [z3.And(b[k] >= 0, b[k] <= 1, i[k] >= 0, i[k] < M, e[k] >= 0, e[k] < E, r[k] >= 0) for k in range(4)]
        hyp += [b[0] == 0, b[3] == 1, i[0] == M - 1, i[3] == 0, le(0, 1), le(1, 2), le(2, 3)]
        x = [b[k] * E + e[k] for k in range(4)]
        return hyp, z3.And(x[0] <= x[1], x[1] <= x[2], x[2] <= x[3])
@proof
class Groups(Lemma):
    name = 'lemma: 512 to 1024 groups'; props = ('C11',)
    about = 'from the contract of GetSharedIgnoreImplicitLengths: with the chosen implicit size the number of groups between two boundaries is between 512 and 1024'
    def formula(self):
        # a9, b9: the first nine implicit bits after the ignored ones; a1, b1: the tenth (used when the implicit size is 11)
        a, b, a1, b1 = z3.Ints('a b a1 b1'); n10 = (512 + b) - a + 1; n11 = (1024 + 2 * b + b1) - (2 * a + a1) + 1; hyp = [a >= 0, a < 512, b >= 0, b < 512, a1 >= 0, a1 <= 1, b1 >= 0, b1 <= 1, z3.Not(z3.And(a >= 256, b < 256))]
        return hyp, z3.If(2 * n10 < 1024, z3.And(n11 >= 512, n11 <= 1024), z3.And(n10 >= 512, n10 <= 1024))
