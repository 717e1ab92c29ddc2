"""Contracts of the real functions.  Every class is one function under contract."""
import z3
from .core import *
from .sym import *
PROOFS = []
def proof(c): PROOFS.append(c); return c
def bits(n, w): return z3.BitVec(n, w)
q = z3.BitVec('q', 64)          # an arbitrary bit (or slot) index: postconditions hold for every q

def small(n, nm='m'):
    """a memory of n arbitrary words (search of failing inputs only)"""
    a = z3.K(z3.BitVecSort(64), BV(0, 64))
    for i in range(n): a = z3.Store(a, BV(i, 64), z3.BitVec(f'{nm}{i}', 64))
    return a
class Words(Proof):
    """functions over one array of 64-bit words of any size"""
    def words(self, ex, size=None):
        if self.refute: self.n = BV(5, 64); self.m0 = ex.region('mem', 'words', self.n * 8, init=small(5)); return Ptr.to('mem')
        self.n = z3.BitVec('nwords', 64); ex.assume(z3.ULE(self.n, BV(1 << 26, 64)))
        self.m0 = ex.region('mem', 'words', self.n * 8); return Ptr.to('mem')

# ------------------------------------------------------------------ words and bits (util.hpp)
@proof
class BitRank(Proof):
    name = 'bit_rank'; entry = 'dv_bit_rank'; props = ('C10', 'C06', 'C08')
    cases = range(65)
    about = 'bit_rank(v, i) is the number of set bits of v below i, for every v and 0 <= i <= 64'
    def setup(self, ex):
        self.v, self.i = bits('v', 64), BV(self.case, 32); return [self.v, self.i]
    def post(self, ex, ret, mem):
        k = prefix_counts(self.v); r = BV(0, 32)
        for j in range(65): r = z3.If(self.i == j, zx(k[j], 32), r)
        return [('result = number of set bits below i', ret == r)]
@proof
class BitSelect(Proof):
    heavy = True; cost = 50; name = 'bit_select'; entry = 'dv_bit_select'; props = ('C10', 'C06', 'C08')
    cases = range(64)
    about = 'bit_select(v, i) is the position of the set bit with i set bits below it, 64 when there is none, for every v and i < 64'
    def setup(self, ex):
        self.v, self.i = bits('v', 64), BV(self.case, 32); return [self.v, self.i]
    def post(self, ex, ret, mem):
        k = prefix_counts(self.v); ok = z3.Or(*[z3.And(ret == j, z3.Extract(j, j, self.v) == 1, k[j] == zx(self.i, 7)) for j in range(64)])
        return [('result is the i-th set bit, or 64', z3.Or(ok, z3.And(ret == 64, z3.ULE(k[64], zx(self.i, 7)))))]
@proof
class LowBit(Proof):
    name = 'lowbit_pos'; entry = 'dv_lowbit_pos'; props = ('C10',)
    about = 'lowbit_pos(v) is the position of the lowest set bit, 64 for 0'
    def setup(self, ex): self.v = bits('v', 64); return [self.v]
    def post(self, ex, ret, mem): return [('lowest set bit', z3.If(self.v == 0, ret == 64, z3.Or(*[z3.And(ret == j, z3.Extract(j, 0, self.v) == BV(1 << j, j + 1)) for j in range(64)])))]
@proof
class HighBit(Proof):
    name = 'highbit_pos'; entry = 'dv_highbit_pos'; props = ('C10',)
    about = 'highbit_pos(v) is the position of the highest set bit, -1 for 0'
    def setup(self, ex): self.v = bits('v', 64); return [self.v]
    def post(self, ex, ret, mem): return [('highest set bit', z3.If(self.v == 0, ret == -1, z3.Or(*[z3.And(ret == j, z3.LShR(self.v, j) == 1) for j in range(64)])))]

class OneBit(Words):
    def setup(self, ex):
        p = self.words(ex); self.pos = bits('pos', 32); ex.assume(z3.ULT(zx(z3.LShR(self.pos, 6), 64), self.n)); return [p, self.pos]
    def post(self, ex, ret, mem): return [('bit pos written, every other bit kept', bit(mem['mem'], q) == z3.If(q == zx(self.pos, 64), BV(self.to, 1), bit(self.m0, q)))]
@proof
class SetBit(OneBit): name = 'set_bitmap_bit'; entry = 'dv_set_bitmap_bit'; props = ('C09', 'C12'); to = 1; about = 'sets bit pos, keeps every other bit of memory'
@proof
class ResetBit(OneBit): name = 'reset_bitmap_bit'; entry = 'dv_reset_bitmap_bit'; props = ('C09', 'C12'); to = 0; about = 'clears bit pos, keeps every other bit of memory'
@proof
class GetBitmap(OneBit):
    name = 'get_bitmap_bit'; entry = 'dv_get_bitmap_bit'; props = ('C09', 'C12'); about = 'returns bit pos; writes nothing'
    def post(self, ex, ret, mem): return [('result is the bit', ret == zx(bit(self.m0, zx(self.pos, 64)), 64)), ('writes nothing', T if mem['mem'] is self.m0 else mem['mem'] == self.m0)]

def lin_candidates(phis, terms):
    """name-independent candidates over the 32-bit header variables: bounds by and constant distances to given terms"""
    out = []
    ks = [k for k, v in phis.items() if not isinstance(v, Ptr) and z3.is_bv(v) and v.size() == 32]
    return ks
class Shift(Words):
    unroll = 8; refute_cases = [(l, s) for s in (64, 1, 65, 63, 128) for l in (64, 70, 127, 128, 0)]
    timeout = 60; heavy = True; cost = 100
    def setup(self, ex):
        p = self.words(ex); self.l, self.r, self.s = bits('l', 32), bits('r', 32), bits('s', 32)
        if self.refute: self.l, self.s = BV(self.rcase[0], 32), BV(self.rcase[1], 32); ex.fold = True
        l, r, s = self.l, self.r, self.s
        M = BV(1 << 28, 32)
        for c in (l >= 0, r >= -1, l <= r + 1, s >= 1, l < M, r < M, s < M): ex.assume(c)
        if self.refute:
            for c in (l, r + 1, s): ex.assume(z3.ULE(c, 256))
        self.pre(ex); return [p, l, r, s]
    def policy(self, ex, h):
        return ('cut', lambda ex, info, cur, mem, mode: self.inv(ex, info, cur, mem, mode, h))
    def inv(self, ex, info, cur, mem, mode, h):
        out = []; ent = info['entry']; m = mem['mem']; e = info['emem']['mem']; l, r, s = self.l, self.r, self.s
        ks = [k for k, v in cur.items() if z3.is_bv(v) and v.size() == 32]; late = []
        def cand(n, c):
            if (h, n) not in self.dropped: out.append((n, c))
        for a in ks:
            for nm, c in (('>= l-1', cur[a] >= l - 1), ('>= l', cur[a] >= l), ('<= r', cur[a] <= r), ('<= r+1', cur[a] <= r + 1), ('<= entry', cur[a] <= ent[a]), ('>= entry', cur[a] >= ent[a]), ('>= l-s', cur[a] >= l - s), ('>= 0', cur[a] >= 0)): cand(f'{a} {nm}', c)
            for b in ks:
                if a < b: cand(f'{a} - {b} constant', cur[a] - cur[b] == ent[a] - ent[b])
            # contents, for an arbitrary bit x (instantiated at q and its source)
            for nm, f in self.contents(cur[a], ent[a]):
                if (h, f'{a}: {nm}') in self.dropped: continue
                # over the memory at loop entry
                xs = [q] if mode == "check" else [q, q + S(s) if self.name.endswith("left") else q - S(s)]
                late.append((f'{a}: {nm}', z3.And(*[bit(m, x) == f(x, e) for x in xs])))
        late.sort(key=lambda t: [n for n, f in self.contents(self.l, self.l)].index(t[0].split(': ')[1]))
        return out + late
    def split(self, ex, o):
        # 64 cases: the offset in its word of the position the loop is at
        if isinstance(o.kind, tuple) and 'moved' in o.kind[2] and 'is kept' in o.name:
            v = ex.cutinfo[o.kind[1]][2][o.kind[2].split(':')[0]]
            from .core import solve
            return [(v & 63) == k for k in range(64)]
    def post(self, ex, ret, mem): return [('range moved, vacated bits zero, every other bit kept', bit(mem['mem'], q) == self.spec(q))]
def S(e): return z3.SignExt(32, e)
def inr(x, a, b): return z3.And(x >= a, x <= b)      # signed 64-bit
@proof
class ShiftRight(Shift):
    name = 'shift_bitmap_right'; entry = 'dv_shift_right'; props = ('C09', 'C08', 'C12')
    about = 'bits [l, r] move to [l+s, r+s], bits [l, l+s) become 0, every other bit of memory is kept; for every l, r, s and contents'
    def pre(self, ex): ex.assume(z3.ULE(S(self.r + self.s), self.n * 64 - 1)); ex.assume(z3.ULE(S(self.l + self.s), self.n * 64)); ex.assume(z3.UGE(self.n, 1))
    def contents(self, p, p0):
        s = S(self.s)
        return [('bits (p+s, p0+s] moved', lambda x, e: z3.If(inr(x, S(p) + 1 + s, S(p0) + s), bit(e, x - s), bit(e, x))),
                ('bits (p, p0] moved by s', lambda x, e: z3.If(inr(x, S(p) + 1, S(p0)), bit(e, x - s), bit(e, x))),
                ('bits (p, p0] zero', lambda x, e: z3.If(inr(x, S(p) + 1, S(p0)), BV(0, 1), bit(e, x))),
                ('bits [p0, p) zero', lambda x, e: z3.If(inr(x, S(p0), S(p) - 1), BV(0, 1), bit(e, x)))]
    def spec(self, x):
        l, r, s = S(self.l), S(self.r), S(self.s)
        return z3.If(inr(x, l, l + s - 1), BV(0, 1), z3.If(inr(x, l + s, r + s), bit(self.m0, x - s), bit(self.m0, x)))
@proof
class ShiftLeft(Shift):
    name = 'shift_bitmap_left'; entry = 'dv_shift_left'; props = ('C09', 'C08', 'C12')
    about = 'bits [l, r] move to [l-s, r-s], bits (r-s, r] become 0, every other bit of memory is kept; for every l, r, s and contents'
    def pre(self, ex): ex.assume(self.l >= self.s); ex.assume(self.r - self.s >= -1); ex.assume(z3.ULE(S(self.r) + 1, self.n * 64))
    def contents(self, p, p0):
        s = S(self.s)
        return [('bits [p0-s, p-s) moved', lambda x, e: z3.If(inr(x, S(p0) - s, S(p) - s - 1), bit(e, x + s), bit(e, x))),
                ('bits [p0, p) moved by s', lambda x, e: z3.If(inr(x, S(p0), S(p) - 1), bit(e, x + s), bit(e, x))),
                ('bits [p0, p) zero', lambda x, e: z3.If(inr(x, S(p0), S(p) - 1), BV(0, 1), bit(e, x))),
                ('bits (p, p0] zero', lambda x, e: z3.If(inr(x, S(p) + 1, S(p0)), BV(0, 1), bit(e, x)))]
    def spec(self, x):
        l, r, s = S(self.l), S(self.r), S(self.s)
        return z3.If(inr(x, r - s + 1, r), BV(0, 1), z3.If(inr(x, l - s, r - s), bit(self.m0, x + s), bit(self.m0, x)))
