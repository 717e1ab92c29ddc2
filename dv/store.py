"""Contracts of the store primitives: a store is one array of 64-bit words  [popcounts | occupieds | runends | slots]."""
from .contracts import *
from .ir import IR
OCC, RUN = 64, 64 + 1024                   # first bit of the occupieds and of the runends bitmap
MAXN = 1 << 21
_off = {}
def offsets(p, ex):
    """field offsets of the real classes, computed by executing dv_off"""
    k = id(p.module)
    if k not in _off:
        ir = p.module.extract('dv_off', [], p.tmp); d = {}
        for i in range(12):
            e = Exec(ir, 'dv_off'); d[i] = const(simp(next(r[1] for r in e.run([BV(i, 32)]) if is_true(simp(r[0])))))
        _off[k] = d
    return _off[k]
def cell32(m, o): return z3.Concat(*[m[o + i] if o + i in m else z3.BitVec(f'store@{o + i}', 8) for i in (3, 2, 1, 0)])
MUL = z3.Function('times', z3.BitVecSort(32), z3.BitVecSort(32), z3.BitVecSort(32))
class Store(Proof):
    """functions over a filter object (read-only here) and one store of any capacity, slot width and contents"""
    WMAX = 57; writes = False; RN = 70; unroll = 5
    def mk(self, ex, w=None):
        o = offsets(self, ex); self.o = o
        if self.refute: w = 9 if w is None else w
        self.w = bits('w', 32) if w is None else BV(w, 32)
        base = z3.Array('diva', z3.BitVecSort(64), z3.BitVecSort(64)) if not self.refute else z3.K(z3.BitVecSort(64), BV(0, 64)); pad = z3.BitVec('pad', 32)
        if o[0] % 8: raise Unsupported('layout')
        N64 = z3.BitVec('N', 64) if not self.refute else BV(self.RN, 64)
        st = {o[8]: ('ptr', Ptr.to('mem'))}
        for i in range(4): st[o[7] + i] = z3.BitVec(f'store@{o[7] + i}', 8)
        self.status = cell32(st, o[7]); self.grade = z3.LShR(self.status, 20) & 0xff; self.count = self.status & 0xfffff
        base = z3.Store(base, simp(BV(o[1] // 8, 64) + zx(self.grade, 64)), N64); self.d0 = z3.Store(base, BV(o[0] // 8, 64), z3.Concat(pad, self.w)); ex.region('diva', 'words', BV(o[9], 64), self.d0, writable=False)
        if w is None: ex.assume(z3.And(z3.ULE(self.w, self.WMAX), z3.UGE(self.w, 1)))
        ex.region('store', 'cells', BV(o[10], 64), st, writable=self.writes == 'all')
        ex.assume(z3.ULE(N64, MAXN)); ex.assume(z3.UGE(N64, 2)); self.N = EX(31, 0, N64); self.base = base
        if w is None: ex.mul = self.mul; ex.assume(And(z3.ULE(self.mul(self.N, self.w), MAXN * 57), z3.UGE(self.mul(self.N, self.w), self.N)))
        nb = BV(1024, 32) + self.mul(self.N, self.w) + self.N + 63; self.nw = 2 + z3.LShR(zx(nb, 64), 6)
        self.m0 = ex.region('mem', 'words', simp(self.nw * 8), writable=bool(self.writes), init=small(const(self.nw)) if self.refute else None); self.S = BV(RUN, 32) + self.N
        return Ptr.to('diva'), Ptr.to('store')
    def mul(self, x, y):
        """x * y; where w is symbolic a ghost function with the lemmas of multiplication that are used (see use)"""
        if const(y) is not None or const(x) is not None: return x * y
        return MUL(x, y) if x.get_id() != self.w.get_id() else MUL(y, x)
    def use(self, ex, p):
        """lemma, p <= N: p*w + w <= N*w + w, and p < N: p*w + w <= N*w (no overflow: N*w < 2^27)"""
        if const(self.w) is None: ex.assume(And(Implies(z3.ULE(p, self.N), z3.ULE(self.mul(p, self.w), self.mul(self.N, self.w))), Implies(z3.ULT(p, self.N), z3.ULE(self.mul(p, self.w) + self.w, self.mul(self.N, self.w)))))
    def occ(self, m, x): return bit(m, zx(x, 64) + OCC)
    def run(self, m, x): return bit(m, zx(x, 64) + RUN)
    def popc(self, m, i): return z3.Extract(31, 0, z3.Select(m, BV(0, 64))) if i == 0 else z3.Extract(63, 32, z3.Select(m, BV(0, 64)))
    def slotbit(self, m, p, j): return bit(m, zx(self.S + self.mul(p, self.w) + j, 64))
    def pc(self, v): return PC(v) if self.refute else PCF(v)
    def frame(self, mem): return [('the store\'s status and pointer are kept', same_cells(mem['store'], self.ex.mem0['store'], self.o))]
def same_cells(a, b, o):
    c = []
    for i in range(4): c.append(a[o[7] + i] == b[o[7] + i])
    p = a.get(o[8])
    if not (isinstance(p, tuple) and len(p[1].alts) == 1 and p[1].alts[0][1] == 'mem'): return F
    return And(*[simp(x) for x in c], simp(p[1].alts[0][2] == 0))
j32 = z3.BitVec('j', 32); EX = z3.Extract

# ------------------------------------------------------------------ slots
@proof
class GetSlot(Store):
    name = 'GetSlot'; entry = 'dv_get_slot'; props = ('C09', 'C06', 'C12', 'C15')
    timeout = 60
    about = 'returns exactly the infix_size_ bits of slot pos, for every capacity, slot width 1..57, position (0..N, so that one-past is readable) and contents; reads only inside the store, writes nothing'
    def setup(self, ex):
        d, s = self.mk(ex); self.p = bits('pos', 32); ex.assume(z3.ULE(self.p, self.N)); self.use(ex, self.p); return [d, s, self.p]
    def post(self, ex, ret, mem):
        j = zx(j32, 64)
        return [('bit j of the result is bit j of the slot', Implies(z3.ULT(j32, self.w), z3.Extract(0, 0, z3.LShR(ret, j)) == self.slotbit(self.m0, self.p, j32))),
                ('the result has only slot bits', z3.LShR(ret, zx(self.w, 64)) == 0)]
class SetSlotBase(Store):
    writes = 'mem'; timeout = 60; cost = 20
    def post(self, ex, ret, mem):
        b = zx(self.S0 + self.mul(self.p, self.wd), 64); w = zx(self.wd, 64)
        return [('slot pos holds the value, every other bit of memory is kept', bit(mem['mem'], q) == z3.If(z3.ULT(q - b, w), z3.Extract(0, 0, z3.LShR(self.v, q - b)), bit(self.m0, q)))] + self.frame(mem)
@proof
class SetSlot(SetSlotBase):
    name = 'SetSlot'; entry = 'dv_set_slot'; props = ('C09', 'C12')
    about = 'slot pos becomes value, every other bit of the store is kept; for every capacity, slot width 1..57, position, value and contents'
    def setup(self, ex):
        d, s = self.mk(ex); self.p = bits('pos', 32); self.v = bits('v', 64); self.wd = self.w; self.S0 = self.S; self.use(ex, self.p)
        ex.assume(z3.ULE(self.p, self.N)); ex.assume(z3.LShR(self.v, zx(self.w, 64)) == 0); return [d, s, self.p, self.v]
@proof
class SetSlotW(SetSlotBase):
    name = 'SetSlot (explicit width)'; entry = 'dv_set_slot_w'; props = ('C09', 'C03', 'C12')
    about = 'slot pos of the given width becomes value, every other bit of the store is kept'
    def setup(self, ex):
        # the store was allocated for the given width; the filter's own slot width is arbitrary
        d, s = self.mk(ex); self.wd = self.w; self.p = bits('pos', 32); self.v = bits('v', 64); self.S0 = self.S; self.use(ex, self.p)
        other = z3.BitVec('own_w', 32); ex.mem['diva'] = z3.Store(self.base, BV(self.o[0] // 8, 64), zx(other, 64))
        ex.assume(z3.ULE(self.p, self.N)); ex.assume(z3.LShR(self.v, zx(self.wd, 64)) == 0); return [d, s, self.p, self.v, self.wd]

# ------------------------------------------------------------------ store status word
class Status(Proof):
    props = ('C08', 'C07', 'C12')
    def setup(self, ex):
        o = offsets(self, ex); self.o = o; st = {o[8]: ('ptr', Ptr.to('mem'))}
        for i in range(4): st[o[7] + i] = z3.BitVec(f'store@{o[7] + i}', 8)
        ex.region('mem', 'words', BV(8, 64), writable=False); ex.region('store', 'cells', BV(o[10], 64), st); self.s0 = cell32(st, o[7]); self.x = bits('x', 32)
        return [Ptr.to('store')] + self.args(ex)
    def args(self, ex): return []
    def new(self, mem): return cell32(mem['store'], self.o[7])
def getter(nm, en, spec, ab, boolean=False):
    class G(Status):
        name = nm; entry = en; about = ab; timeout = 20
        def post(self, ex, ret, mem): return [('value', (ret == spec(self.s0)) if not boolean else (ret == (spec(self.s0) == 1))), ('writes nothing', self.new(mem) == self.s0)]
    return proof(G)
def setter(nm, en, pre, spec, ab, boolean=False):
    class G(Status):
        name = nm; entry = en; about = ab; timeout = 20
        def args(self, ex):
            if boolean: self.b = z3.Bool('b'); return [self.b]
            ex.assume(pre(self.x, self.s0)); return [self.x]
        def post(self, ex, ret, mem): return [('only this field changes', self.new(mem) == spec(self.s0, self.b if boolean else self.x))]
    return proof(G)
getter('GetElemCount', 'dv_elem_count', lambda s: s & 0xfffff, 'the low 20 bits of the status')
getter('GetSizeGrade', 'dv_size_grade', lambda s: z3.LShR(s, 20) & 0xff, 'bits 20..27 of the status')
getter('GetInvalidBits', 'dv_invalid_bits', lambda s: z3.LShR(s, 28) & 7, 'bits 28..30 of the status')
getter('IsPartialKey', 'dv_is_partial', lambda s: z3.LShR(s, 31), 'bit 31 of the status', True)
setter('SetElemCount', 'dv_set_elem_count', lambda x, s: z3.ULE(x, 0xfffff), lambda s, x: z3.Concat(EX(31, 20, s), EX(19, 0, x)), 'sets the element count, keeps grade, invalid bits and partial flag')
setter('UpdateElemCount', 'dv_update_elem_count', lambda x, s: z3.ULE((s & 0xfffff) + x, 0xfffff), lambda s, x: z3.Concat(EX(31, 20, s), EX(19, 0, s) + EX(19, 0, x)), 'adds to the element count, keeps the other fields')
setter('SetSizeGrade', 'dv_set_size_grade', lambda x, s: z3.ULE(x, 0xff), lambda s, x: z3.Concat(EX(31, 28, s), EX(7, 0, x), EX(19, 0, s)), 'sets the size grade, keeps the other fields')
setter('SetInvalidBits', 'dv_set_invalid_bits', lambda x, s: z3.ULE(x, 7), lambda s, x: z3.Concat(EX(31, 31, s), EX(2, 0, x), EX(27, 0, s)), 'sets the invalid bits, keeps the other fields')
setter('SetPartialKey', 'dv_set_partial', None, lambda s, b: z3.Concat(z3.If(b, BV(1, 1), BV(0, 1)), EX(30, 0, s)), 'sets the partial flag, keeps the other fields', True)

# ------------------------------------------------------------------ rank, select, neighbours
def lowmask(k): return (BV(1, 64) << k) - 1      # k < 64
PCF = z3.Function('popcount', z3.BitVecSort(64), z3.BitVecSort(32))      # popcount, uninterpreted where only its algebra matters
def PC(v): return zx(ctpop(v), 32)
def br_contract(ex, a, mem, g, line):
    """bit_rank by contract (proved for every position under C10)"""
    ex.ob('bit_rank: precondition i < 64', g, z3.ULT(a[1], 64), 'pre', line); return PCF(simp(a[0] & lowmask(zx(a[1], 64))))
BITRANK = Contract('bit_rank', r'bit_rank\(', br_contract)
@proof
class Rank(Store):
    keep = (r'bit_rank\(',); contracts = (BITRANK,)
    name = 'RankOccupieds'; entry = 'dv_rank'; props = ('C10', 'C06', 'C08', 'C15'); cases = range(16); timeout = 60
    about = 'number of set occupied bits below pos, for every pos < 1024 and contents, given that the first cached count is the number of set bits in the first 512'
    def setup(self, ex):
        ex.fold = True; d, s = self.mk(ex, 8); self.p = z3.Concat(BV(self.case, 26), bits('pos_low', 6))
        self.ws = [z3.Select(self.m0, BV(1 + i, 64)) for i in range(16)]; t = BV(0, 32)
        ex.popcount = None if self.refute else lambda v: zx(PCF(v), 64)
        for i in range(8): t = t + self.pc(self.ws[i])
        self.m0 = ex.mem['mem'] = z3.Store(self.m0, BV(0, 64), z3.Concat(bits('count2', 32), t)); return [d, s, self.p]      # precondition: the cached count
    def policy(self, ex, h): return ('unroll', 18)
    def post(self, ex, ret, mem):
        r = BV(0, 32); k = self.case
        for i in range(k): r = r + self.pc(self.ws[i])
        return [('result = number of set bits below pos', ret == r + self.pc(simp(self.ws[k] & lowmask(zx(self.p & 63, 64)))))]
R = z3.Function('runends_before_word', z3.BitVecSort(32), z3.BitVecSort(32))     # ghost: number of set runend bits before a word
def bs_contract(ex, a, mem, g, line):
    """bit_select by contract (proved for all 64 ranks under C10)"""
    v, i = a; r = ex.fresh('select', 32); pc = PCF if ex.popcount else PC
    ex.assume(Implies(g, z3.If(z3.ULT(i, pc(v)), z3.And(z3.ULT(r, 64), EX(0, 0, z3.LShR(v, zx(r, 64))) == 1, pc(v & lowmask(zx(r, 64))) == i), r == 64))); return r
BITSELECT = Contract('bit_select', r'bit_select\(', bs_contract)
@proof
class Select(Store):
    name = 'SelectRunends'; entry = 'dv_select'; props = ('C10', 'C06', 'C08', 'C15'); keep = (r'bit_select\(',); contracts = (BITSELECT,); cost = 15; timeout = 60; joint = True
    about = 'position of the run end with the given number of run ends before it, for every capacity, contents and rank below the number of run ends, given that the second cached count is the number of run ends among the first 512 slots'
    def R(self, i):
        if not self.refute: return R(i)
        t = BV(0, 32); r = t
        for k in range(9): t = t + PC(self.rw(BV(k, 32))); r = z3.If(z3.UGE(i, k + 1), t, r)
        return r
    def rw(self, i): return z3.Select(self.m0, zx(i, 64) + 17)
    def axiom(self, i): return And(self.R(i + 1) == self.R(i) + self.pc(self.rw(i)), z3.ULE(self.pc(self.rw(i)), 64))       # definition of the ghost function
    def P(self, x): return self.R(z3.LShR(x, 6)) + self.pc(self.rw(z3.LShR(x, 6)) & lowmask(zx(x & 63, 64)))
    def setup(self, ex):
        ex.popcount = None if self.refute else lambda v: zx(PCF(v), 64)
        d, s = self.mk(ex, 8); self.k = bits('rank', 32); N = self.N
        ex.assume(self.R(BV(0, 32)) == 0); ex.assume(self.popc(self.m0, 1) == z3.If(z3.ULT(N, 512), self.P(N), self.R(BV(8, 32))))
        self.W = z3.LShR(N + 63, 6); last = z3.LShR(N, 6); w = self.rw(last); lm = w & lowmask(zx(N & 63, 64))
        ex.assume(z3.ULT(self.k, self.P(N))); ex.assume(self.axiom(last)); ex.assume(self.mono(BV(8, 32)))
        ex.assume(z3.ULE(self.pc(lm), self.pc(w))); ex.assume(Implies(N & 63 == 0, self.pc(lm) == 0))       # lemmas of popcount
        return [d, s, self.k]
    def mono(self, i):
        """R is monotone and at most 64 per word (lemma: induction over its definition)"""
        last = z3.LShR(self.N, 6); o = [z3.ULE(self.R(i), 64 * i)]
        for a in (BV(8, 32), last, last + 1): o += [Implies(z3.ULE(i, a), z3.ULE(self.R(i), self.R(a))), Implies(z3.ULE(a, i), z3.ULE(self.R(a), self.R(i)))]
        return And(*o)
    def policy(self, ex, h):
        def inv(ex, info, cur, mem, mode):
            out = []; ks = [k for k, v in cur.items() if z3.is_bv(v) and v.size() == 32]; W = self.W; ent = info['entry']
            if mode == 'assume':
                for k in ks: ex.assume(Implies(z3.ULE(cur[k], W + 1), And(self.axiom(cur[k]), Implies(cur[k] != 0, And(self.axiom(cur[k] - 1), self.mono(cur[k] - 1))), self.mono(cur[k]), self.mono(cur[k] + 1))))
            def cand(n, c):
                if (h, n) not in self.dropped: out.append((n, c))
            for a in ks:
                cand(f'{a} <= words', z3.ULE(cur[a], W)); cand(f'{a} >= entry', z3.UGE(cur[a], ent[a]))
                for b in ks:
                    if a != b:
                        cand(f'{a} = R({b})', cur[a] == self.R(cur[b])); cand(f'{a} = R({b}-1) or start', Or(cur[a] == self.R(cur[b] - 1), And(cur[b] == ent[b], cur[a] == ent[a])))
                        cand(f'R({b}-1) <= rank or start', Or(z3.ULE(self.R(cur[b] - 1), self.k), cur[b] == ent[b]))
            return out
        return ('cut', inv)
    def post(self, ex, ret, mem):
        return [('the result is a run end with rank run ends before it', And(self.run(self.m0, ret) == 1, self.P(ret) == self.k))]

class Neighbour(Store):
    timeout = 60; joint = True
    def setup(self, ex):
        d, s = self.mk(ex, 8); self.p = bits('pos', 32); self.pre(ex); return [d, s, self.p]
class OccN(Neighbour):
    props = ('C10', 'C06', 'C12', 'C15')
    def bitat(self, x): return self.occ(self.m0, x)
    def policy(self, ex, h): return RunN.policy(self, ex, h)
@proof
class NextOcc(OccN):
    name = 'NextOccupied'; entry = 'dv_next_occ'
    about = 'the smallest set position above pos, at least 1024 when there is none; for every pos < 1024 and contents'
    def pre(self, ex): ex.assume(z3.ULT(self.p, 1024))
    def post(self, ex, ret, mem):
        q_ = EX(31, 0, q)
        return [('no set bit is skipped', Implies(And(self.p < q_, q_ < ret, q_ < 1024, q_ >= 0), self.occ(self.m0, q_) == 0)), ('the result is set or past the end', Or(ret >= 1024, self.occ(self.m0, ret) == 1)), ('the result is above pos', ret > self.p)]
@proof
class PrevOcc(OccN):
    name = 'PreviousOccupied'; entry = 'dv_prev_occ'
    about = 'the largest set position below pos, -1 when there is none; for every pos in 1..1024 and contents'
    def pre(self, ex): ex.assume(z3.And(z3.ULE(self.p, 1024), z3.UGE(self.p, 1)))
    def post(self, ex, ret, mem):
        q_ = EX(31, 0, q)
        return [('no set bit is skipped', Implies(And(ret < q_, q_ < self.p, q_ >= 0), self.occ(self.m0, q_) == 0)), ('the result is set or -1', Or(ret == -1, self.occ(self.m0, ret) == 1)), ('the result is below pos', And(ret < self.p, ret >= -1))]
class RunN(Neighbour):
    def bitat(self, x): return self.run(self.m0, x)
    props = ('C10', 'C06', 'C08', 'C12', 'C15')
    def policy(self, ex, h):
        def inv(ex, info, cur, mem, mode):
            out = []; ent = info['entry']; q_ = EX(31, 0, q)
            def cand(n, c):
                if (h, n) not in self.dropped: out.append((n, c))
            for a in [k for k, v in cur.items() if z3.is_bv(v) and v.size() == 32]:
                v = cur[a]
                for n, c in (('> pos', v > self.p), ('< pos', v < self.p), ('>= 0', v >= 0), ('>= -1', v >= -1), ('<= N', v <= self.N), ('< N', v < self.N), ('< 1024', v < 1024), ('<= 1024', v <= 1024), ('word start or first', Or(v & 63 == 0, v == ent[a])), ('word end or first', Or(v & 63 == 63, v == ent[a])),
                             ('>= entry', v >= ent[a]), ('<= entry', v <= ent[a]),
                             ('nothing set up to here', Implies(And(self.p < q_, q_ < v, q_ >= 0), self.bitat(q_) == 0)), ('nothing set down to here', Implies(And(v < q_, q_ < self.p, q_ >= 0), self.bitat(q_) == 0))): cand(f'{a} {n}', c)
            return out
        return ('cut', inv)
@proof
class NextRun(RunN):
    name = 'NextRunend'; entry = 'dv_next_run'
    about = 'the smallest run end above pos, at least the capacity when there is none; for every capacity, pos below the capacity and contents'
    def pre(self, ex): ex.assume(z3.ULT(self.p, self.N))
    def post(self, ex, ret, mem):
        q_ = EX(31, 0, q)
        return [('no run end is skipped', Implies(And(self.p < q_, q_ < ret, q_ < self.N, q_ >= 0), self.run(self.m0, q_) == 0)), ('the result is a run end or past the end', Or(ret >= self.N, self.run(self.m0, ret) == 1)), ('the result is above pos', ret > self.p)]
@proof
class PrevRun(RunN):
    name = 'PreviousRunend'; entry = 'dv_prev_run'
    about = 'the largest run end below pos, -1 when there is none; for every capacity, pos in 0..N and contents'
    def pre(self, ex): ex.assume(z3.ULE(self.p, self.N)); ex.assume(self.p >= 0)
    def post(self, ex, ret, mem):
        q_ = EX(31, 0, q)
        return [('no run end is skipped', Implies(And(ret < q_, q_ < self.p, q_ >= 0), self.run(self.m0, q_) == 0)), ('the result is a run end or -1', Or(ret == -1, Implies(self.p > 0, self.run(self.m0, ret) == 1))), ('the result is below pos', And(ret < self.p, ret >= -1))]

# ------------------------------------------------------------------ moves of slots and of run ends
class StoreShift(Store):
    """ShiftSlots* / ShiftRunends*: shift_bitmap_right / shift_bitmap_left by their contracts (contracts.py)"""
    writes = 'mem'; timeout = 60; cost = 40; joint = True; keep = (r'shift_bitmap_(right|left)\(',); refute_cases = (); slots = True; left = False; props = ('C09', 'C08', 'C12'); vary = None
    def __init__(self):
        super().__init__(); self.contracts = (Contract('shift_bitmap_right', r'shift_bitmap_right\(', lambda *a: self.c_shift(*a, left=False), False), Contract('shift_bitmap_left', r'shift_bitmap_left\(', lambda *a: self.c_shift(*a, left=True), False))
    def setup(self, ex):
        d, s = self.mk(ex); self.l, self.r, self.s = l, r, k = bits('l', 32), bits('r', 32), bits('k', 32); ex.assume(And(z3.ULE(l, r), z3.ULE(r, self.N), z3.ULE(k, self.N), z3.UGE(k, 1), z3.ULE(k, l) if self.left else z3.ULE(r + k, self.N)))
        if self.slots:
            m = lambda x: self.mul(x, self.w); w = self.w; top = m(self.N)
            # lemmas of multiplication: monotone, distributive (no overflow: N * w < 2^27)
            for x in (l, r, k): ex.assume(z3.ULE(m(x), top))
            ex.assume(And(z3.ULE(m(l), m(r)), z3.UGE(m(k), w), Implies(z3.ULE(k, l), z3.ULE(m(k), m(l))), Implies(z3.ULE(r + k, self.N), z3.ULE(m(r) + m(k), top))))
            self.want = [self.S + m(l), self.S + m(r), m(k)]
        else: self.want = [BV(RUN, 32) + l, BV(RUN, 32) + r, k]
        return [d, s, l, r, k]
    def c_shift(self, ex, a, mem, g, line, left):
        if len(a[0].alts) != 1 or a[0].alts[0][1] != 'mem': raise Unsupported('shift: pointer')
        off = a[0].alts[0][2]; l, r, s = (S(x) for x in a[1:4]); n = self.nw * 64 - off * 8; M = BV(1 << 28, 64); o = lambda nm, c: ex.ob(f'shift_bitmap: {nm}', g, c, 'pre', line)
        o('word aligned', EX(2, 0, off) == 0); o('0 <= l <= r + 1', And(l >= 0, l <= r + 1, r < M)); o('s is a distance', And(s >= 1, s < M))
        if left: o('in bounds', And(l >= s, z3.ULE(r + 1, n)))
        else: o('in bounds', And(r + s + 1 <= n, l + s <= n))
        m0 = mem['mem']; m2 = z3.Array(f'shifted{len(ex.asm)}', z3.BitVecSort(64), z3.BitVecSort(64)); b = off * 8; x = q - b
        sp = z3.If(inr(x, r - s + 1, r), BV(0, 1), z3.If(inr(x, l - s, r - s), bit(m0, q + s), bit(m0, q))) if left else z3.If(inr(x, l, l + s - 1), BV(0, 1), z3.If(inr(x, l + s, r + s), bit(m0, q - s), bit(m0, q)))
        ex.assume(Implies(g, bit(m2, q) == sp)); mem['mem'] = m2
    def post(self, ex, ret, mem):
        L, R, s = (zx(x, 64) for x in self.want)
        sp = z3.If(inr(q, R - s, R - 1), BV(0, 1), z3.If(inr(q, L - s, R - s - 1), bit(self.m0, q + s), bit(self.m0, q))) if self.left else z3.If(inr(q, L, L + s - 1), BV(0, 1), z3.If(inr(q, L + s, R + s - 1), bit(self.m0, q - s), bit(self.m0, q)))
        return [('range moved, vacated bits zero, every other bit of the store kept', Implies(z3.ULT(q, self.nw * 64), bit(mem['mem'], q) == sp))] + self.frame(mem)
for nm, en, sl, lf in (('ShiftSlotsRight', 'dv_shift_slots_right', True, False), ('ShiftSlotsLeft', 'dv_shift_slots_left', True, True), ('ShiftRunendsRight', 'dv_shift_runends_right', False, False), ('ShiftRunendsLeft', 'dv_shift_runends_left', False, True)):
    proof(type(nm, (StoreShift,), dict(name=nm, entry=en, slots=sl, left=lf, about=('slots' if sl else 'run ends') + f' [l, r) move k places to the {"left" if lf else "right"}, vacated ones are zero, every other bit of the store is kept; for every capacity, width, l, r, k and contents')))
