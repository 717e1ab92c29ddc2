"""Contracts of the queries on one store, against the store's logical contents.
Ghost view of a store: group g is present iff occupied bit g is set; its run ends at SEL(RANK(g)); Run(e, t) says that slot t
belongs to the run that ends at e:  Run(e, e);  for t < e: Run(e, t) = Run(e, t + 1) and slot t is not empty and t is no run end.
An element (g, slot value s) covers the infixes g*2^w + lo(s) .. g*2^w + hi(s) (the bits below and including the lowest set bit free).
The functions used inside are taken by their contracts (RankOccupieds, SelectRunends, GetSlot, NextOccupied, proved in store.py)."""
from .store import *
B32, B64 = z3.BitVecSort(32), z3.BitVecSort(64)
RANK = z3.Function('rank_occ', B32, B32); SEL = z3.Function('sel_run', B32, B32); SLOT = z3.Function('slot', B32, B64); RUNQ = z3.Function('in_run', B32, B32, z3.BoolSort())
def lo(s): return s - (s & -s)
def hi(s): return s | (s - 1)
class Query(Store):
    timeout = 60; joint = True; cost = 10; keep = (r'.*::GetSlot\(', r'.*::RankOccupieds\(', r'.*::SelectRunends\(', r'.*::NextOccupied\(', r'.*::FindEmptySlotBefore\('); refute_cases = ()
    def __init__(self):
        super().__init__(); C = lambda n, f: Contract(n, r'.*::%s\(' % n, f)
        self.contracts = (C('GetSlot', self.c_slot), C('RankOccupieds', self.c_rank), C('SelectRunends', self.c_sel), C('NextOccupied', self.c_next), C('FindEmptySlotBefore', self.c_empty))
    # --- the store's logical view
    def run_def(self, e, t):
        """definition of Run at t, and its consequences"""
        return And(RUNQ(e, e), Implies(z3.ULT(t, e), RUNQ(e, t) == And(RUNQ(e, t + 1), SLOT(t) != 0, self.run(self.m0, t) == 0)), Implies(RUNQ(e, t), z3.ULE(t, e)))
    def mono(self, e, t, p):
        """lemma (induction over the definition): t in the run and t <= p <= e, then p in the run"""
        return Implies(And(RUNQ(e, t), z3.ULE(t, p), z3.ULE(p, e)), And(RUNQ(e, p), Implies(z3.ULT(p, e), And(SLOT(p) != 0, self.run(self.m0, p) == 0))))
    def ends(self): return [self.e_star]
    def facts(self, ex, p):
        """the instances at slot p"""
        self.seen.append(p)
        for e in self.E: ex.assume(self.run_def(e, p)); ex.assume(self.mono(e, self.t, p))
        ex.assume(z3.LShR(SLOT(p), zx(self.w, 64)) == 0)
    def c_slot(self, ex, a, mem, g, line):
        p = a[2]; ex.ob('GetSlot: pos <= capacity', g, z3.ULE(p, self.N), 'pre', line); self.facts(ex, p); self.slots(ex, p); return SLOT(p)
    def slots(self, ex, p): pass
    def c_rank(self, ex, a, mem, g, line): ex.ob('RankOccupieds: pos < 1024', g, z3.ULT(a[2], 1024), 'pre', line); return RANK(a[2])
    def c_sel(self, ex, a, mem, g, line): ex.ob('SelectRunends: rank below the number of run ends', g, z3.ULT(a[2], self.runs), 'pre', line); self.sel(ex, a[2]); return SEL(a[2])
    def sel(self, ex, k): ex.assume(Implies(z3.ULT(k, self.runs), And(z3.ULT(SEL(k), self.N), SLOT(SEL(k)) != 0)))       # well-formed: the last slot of a run is not empty
    def c_next(self, ex, a, mem, g, line):
        p = a[2]; ex.ob('NextOccupied: pos < 1024', g, z3.ULT(p, 1024), 'pre', line); n = ex.fresh('next', 32); ex.assume(And(n > p, Or(n >= 1024, self.occ(self.m0, n) == 1), n >= 0))
        for x in self.groups: ex.assume(Implies(And(z3.ULT(p, x), z3.ULT(zx(x, 32), n), z3.ULT(x, 1024)), self.occ(self.m0, x) == 0))
        self.nexts.append(n); self.group(ex, n); return n
    def c_empty(self, ex, a, mem, g, line):
        e = a[2]; f = ex.fresh('empty', 32); ex.ob('FindEmptySlotBefore: at a slot that is not empty', g, And(z3.ULT(e, self.N), SLOT(e) != 0), 'pre', line)
        ex.assume(And(f < e, f >= -1, Implies(f >= 0, SLOT(f) == 0))); self.empties.append((e, f)); self.facts(ex, f); return f
    def group(self, ex, g):
        """well-formed: as many run ends as groups, so the rank of an occupied group selects a run end"""
        g = zx(g, 32); ex.assume(Implies(And(z3.ULT(g, 1024), self.occ(self.m0, g) == 1), And(z3.ULT(RANK(g), self.runs)))); ex.assume(z3.ULE(RANK(g), self.runs))
        e = SEL(RANK(g)); self.sel(ex, RANK(g)); ex.assume(RUNQ(e, e))
    def begin(self, ex):
        self.E = []; self.seen = []; self.nexts = []; self.empties = []; d, s = self.mk(ex); self.ti = bits('ti', 32); ex.assume(And(z3.UGE(self.ti, 512), z3.ULE(self.ti, 1024), z3.ULE(self.w, 46), z3.UGE(self.w, 1)))
        self.runs = bits('runs', 32); ex.assume(z3.ULE(self.runs, 1024)); self.t = bits('t_star', 32); ex.assume(z3.ULT(self.t, self.N)); return d, s
    def policy(self, ex, h):
        def inv(ex, info, cur, mem, mode):
            out = []; p32 = [(k, v) for k, v in cur.items() if z3.is_bv(v) and v.size() == 32]; p64 = [(k, v) for k, v in cur.items() if z3.is_bv(v) and v.size() == 64]
            def cand(n, c):
                if (h, n) not in self.dropped: out.append((n, c))
            if mode == 'assume':
                for k, v in p32: self.facts(ex, v)
                for k, v in p64: self.facts(ex, EX(31, 0, v))
            flags = [(k, v if z3.is_bool(v) else EX(0, 0, v) == 1) for k, v in cur.items() if z3.is_bool(v) or z3.is_bv(v) and v.size() == 8]; bs = [('', T)] + [(f'{k}: ', v) for k, v in flags] + [(f'not {k}: ', Not(v)) for k, v in flags]
            def cands(n, c):
                for bn, bc in bs: cand(bn + n, Implies(bc, c))
            for i, e in enumerate(self.E): cands(f'no match in run {i}', Not(And(RUNQ(e, self.t), self.hit(e, self.t))))
            for k, v in p32 + [(k, EX(31, 0, v)) for k, v in p64]:
                cands(f'{k} < N', z3.ULT(v, self.N)); cand(f'-1 <= {k} < N', And(v >= -1, v < self.N))
                if mode == 'assume': self.facts(ex, v + 1)
                for i, e in enumerate(self.E):
                    cands(f'{k} in run {i}', RUNQ(e, v)); cand(f'{k} <= end {i}', v <= e); cands(f'no match above {k} in run {i}', Implies(And(RUNQ(e, self.t), self.hit(e, self.t)), self.t <= v))
                    cand(f'after {k} in run {i}', Or(v == e, RUNQ(e, v + 1)))
                for k2, v2 in p64:
                    if k2 != k: cand(f'{k2} = slot {k}', v2 == SLOT(v))
            for k2, v2 in p64: cand(f'{k2} 32 bits', z3.ULE(v2, 0xffffffff))
            return out
        return ('cut', inv)
    def witnesses(self):
        """slots that the function looked at"""
        out = {}
        for v in self.seen: out[v.get_id()] = v
        return list(out.values())
@proof
class Point(Query):
    name = 'PointQueryInfixStore'; entry = 'dv_point'; props = ('C06', 'C14', 'C01', 'C15', 'C12')
    about = 'true exactly when the key\'s group is present and one element of its run covers the key; for every capacity, slot width 1..46, contents and key, given a well-formed store (loop cut by invariants, callees by contract)'
    def setup(self, ex):
        d, s = self.begin(ex); self.k = bits('k', 64); g = z3.LShR(self.k, zx(self.w, 64)); self.x = self.k & ((BV(1, 64) << zx(self.w, 64)) - 1); ex.assume(z3.ULT(g, 1024)); self.g = EX(31, 0, g); self.groups = [self.g]
        self.e = SEL(RANK(self.g)); self.E = [self.e]; self.group(ex, self.g); self.facts(ex, self.t); return [d, s, self.k, self.ti]
    def hit(self, e, t): return And(z3.ULE(lo(SLOT(t)), self.x), z3.ULE(self.x, hi(SLOT(t))))
    def post(self, ex, ret, mem):
        o = self.occ(self.m0, self.g) == 1; vs = self.witnesses()
        return [('true when an element covers the key', Implies(And(o, RUNQ(self.e, self.t), self.hit(self.e, self.t)), ret)), ('true only when an element covers the key', Implies(ret, And(o, Or(*[And(RUNQ(self.e, v), self.hit(self.e, v)) for v in vs]))))]
@proof
class Range(Query):
    name = 'RangeQueryInfixStore'; entry = 'dv_range'; props = ('C06', 'C14', 'C01', 'C15', 'C12'); cost = 20
    about = 'true exactly when some element of the store covers an infix between l_key and r_key; for every capacity, slot width 1..46, contents and keys l <= r, given a well-formed store (runs sorted by lower end)'
    def setup(self, ex):
        d, s = self.begin(ex); self.l, self.r = bits('l', 64), bits('r', 64); w = zx(self.w, 64); m = (BV(1, 64) << w) - 1; gl, gr = z3.LShR(self.l, w), z3.LShR(self.r, w); self.lx, self.rx = self.l & m, self.r & m
        ex.assume(And(z3.ULT(gl, 1024), z3.ULT(gr, 1024), z3.ULE(self.l, self.r))); self.gl, self.gr = EX(31, 0, gl), EX(31, 0, gr); self.g = bits('g_star', 32)
        ex.assume(z3.ULT(self.g, 1024)); self.groups = [self.g]; self.el, self.er, self.eg = [SEL(RANK(x)) for x in (self.gl, self.gr, self.g)]; self.E = [self.el, self.er, self.eg]
        for x in (self.gl, self.gr, self.g): self.group(ex, x)
        self.facts(ex, self.t); return [d, s, self.l, self.r, self.ti]
    def sel(self, ex, k):
        super().sel(ex, k)
        # SelectRunends, neighbouring ranks: no run end between them (run ends are in rank order)
        for e, x in ((self.er, RANK(self.gr)),):
            prev = z3.If(x == 0, BV(-1, 32), SEL(x - 1)); ex.assume(Implies(And(k == x - 1, x != 0, z3.ULT(x, self.runs)), And(z3.ULT(SEL(x - 1), e), self.run(self.m0, SEL(x - 1)) == 1))); ex.assume(self.mono(e, self.t, SEL(x - 1)))
    def slots(self, ex, p):
        # lemma: all slots between the previous run end / empty slot and the end of the run are in the run; the run is sorted by lower end
        x = RANK(self.gr); prev = z3.If(x == 0, BV(-1, 32), SEL(x - 1))
        for e, f in self.empties:
            start = z3.If(prev > f, prev, f) + 1; ex.assume(Implies(And(e == self.er, p == start, self.occ(self.m0, self.gr) == 1), RUNQ(self.er, p)))
        ex.assume(Implies(And(RUNQ(self.er, p), RUNQ(self.er, self.t), z3.ULE(p, self.t)), z3.ULE(lo(SLOT(p)), lo(SLOT(self.t)))))
    def inside(self, g, t):
        """element (g, slot t) meets the query"""
        return And(Or(z3.ULT(self.gl, g), And(self.gl == g, z3.ULE(self.lx, hi(SLOT(t))))), Or(z3.ULT(g, self.gr), And(g == self.gr, z3.ULE(lo(SLOT(t)), self.rx))))
    def hit(self, e, t): return And(z3.ULE(self.lx, hi(SLOT(t))), Or(z3.ULT(self.gl, self.gr), z3.ULE(lo(SLOT(t)), self.rx)))
    def post(self, ex, ret, mem):
        vs = self.witnesses(); g, t = self.g, self.t; o = lambda x: self.occ(self.m0, x) == 1
        wit = [And(o(x), RUNQ(e, v), self.inside(x, v)) for x, e in ((self.gl, self.el), (self.gr, self.er)) for v in vs] + [And(n < 1024, o(n), RUNQ(SEL(RANK(n)), SEL(RANK(n))), self.inside(n, SEL(RANK(n)))) for n in self.nexts]
        return [('true when an element meets the range', Implies(And(o(g), RUNQ(self.eg, t), self.inside(g, t)), ret)), ('true only when an element meets the range', Implies(ret, Or(*wit)))]

class EmptySlot(Query):
    """functions that look for an empty slot, from one end of a run to the next"""
    props = ('C08', 'C06', 'C10', 'C15'); keep = (r'.*::GetSlot\(', r'.*::NextRunend\(', r'.*::PreviousRunend\(')
    def __init__(self):
        Store.__init__(self); C = lambda n, f: Contract(n, r'.*::%s\(' % n, f); self.contracts = (C('GetSlot', self.c_slot), C('NextRunend', self.c_nextrun), C('PreviousRunend', self.c_prevrun))
    def setup(self, ex):
        d, s = self.mk(ex, 8); self.p = bits('p', 32); self.u = bits('u_star', 32); ex.assume(And(z3.ULT(self.p, self.N), SLOT(self.p) != 0)); self.pre(ex); return [d, s, self.p]
    def pre(self, ex): pass
    def c_slot(self, ex, a, mem, g, line): p = a[2]; ex.ob('GetSlot: pos <= capacity', g, z3.ULE(p, self.N), 'pre', line); return SLOT(p)
    def between(self, ex, c, p):
        """well-formed store: a slot that is not empty and no run end is followed by one that is not empty; lemma (induction): between two neighbouring run ends c, p all slots after the first that is not empty are not empty"""
        ex.assume(Implies(And(SLOT(c + 1) != 0, c < self.u, self.u < p), SLOT(self.u) != 0))
    def c_prevrun(self, ex, a, mem, g, line):
        p = a[2]; ex.ob('PreviousRunend: pos in 0..N', g, And(z3.ULE(p, self.N), p >= 0), 'pre', line); c = ex.fresh('prev', 32)
        ex.assume(And(c < p, c >= -1, Or(c == -1, self.run(self.m0, c) == 1), Implies(c >= 0, SLOT(c) != 0))); self.between(ex, c, p); return c
    def c_nextrun(self, ex, a, mem, g, line):
        p = a[2]; ex.ob('NextRunend: pos < N', g, z3.ULT(p, self.N), 'pre', line); c = ex.fresh('next', 32)
        ex.assume(And(c > p, Or(c >= self.N, self.run(self.m0, c) == 1), Implies(c < self.N, SLOT(c) != 0), c < (1 << 22)))
        # well-formed: from the slot after a run end on, slots that are not empty go on to the next run end
        ex.assume(Implies(And(SLOT(p + 1) != 0, p < self.u, self.u <= c, self.u < self.N), SLOT(self.u) != 0)); ex.assume(Implies(And(SLOT(p + 1) != 0, z3.ULT(p + 1, self.N), Or(p == self.p, self.run(self.m0, p) == 1)), c < self.N)); return c
    def policy(self, ex, h):
        def inv(ex, info, cur, mem, mode):
            out = []; u, p, N = self.u, self.p, self.N
            def cand(n, c):
                if (h, n) not in self.dropped: out.append((n, c))
            for k, v in cur.items():
                if not z3.is_bv(v): continue
                v = v if v.size() == 32 else EX(31, 0, v); ent = info['entry'][k]; ent = ent if ent.size() == 32 else EX(31, 0, ent)
                for n, c in (('>= -1', v >= -1), ('>= 0', v >= 0), ('<= p', v <= p), ('< p', v < p), ('>= p', v >= p), ('< N', v < N), ('<= N', v <= N), ('small', v < (1 << 22)), ('<= entry', v <= ent), ('not empty', SLOT(v) != 0), ('not empty or past', Or(v >= N, SLOT(v) != 0)), ('run end or p', Or(v == p, And(v >= 0, v < N, self.run(self.m0, v) == 1))), ('run end, p or past', Or(v == p, v >= N, self.run(self.m0, v) == 1)),
                             ('down to here', Implies(And(v < u, u < p), SLOT(u) != 0)), ('down to here, inclusive', Implies(And(v <= u, u < p), SLOT(u) != 0)), ('up to here', Implies(And(p <= u, u <= v, u < N), SLOT(u) != 0))): cand(f'{k} {n}', c)
                for k2, x in info['env'].items():
                    if z3.is_expr(x) and z3.is_bv(x) and x.size() == 32 and const(x) is None: cand(f'{k} > {k2}', v > x); cand(f'{k} > {k2} or -1', Or(v > x, x == -1)); cand(f'{k} >= {k2}', v >= x)
            return out
        return ('cut', inv)
@proof
class EmptyBefore(EmptySlot):
    name = 'FindEmptySlotBefore'; entry = 'dv_empty_before'
    about = 'the nearest empty slot below pos, -1 when there is none; for every capacity, contents and pos whose slot is not empty, given a well-formed store'
    def post(self, ex, ret, mem): return [('the result is below pos', And(ret < self.p, ret >= -1)), ('the result is empty or -1', Or(ret == -1, SLOT(ret) == 0)), ('no slot in between is empty', Implies(And(ret < self.u, self.u < self.p), SLOT(self.u) != 0))]
@proof
class EmptyAfter(EmptySlot):
    name = 'FindEmptySlotAfter'; entry = 'dv_empty_after'
    about = 'the nearest empty slot above the end of the run that contains pos, at least the capacity when there is none; for every capacity, contents and pos whose slot is not empty, given a well-formed store'
    def post(self, ex, ret, mem): return [('the result is above pos', ret > self.p), ('the result is empty or past the end', Or(ret >= self.N, SLOT(ret) == 0)), ('no slot in between is empty', Implies(And(self.p < self.u, self.u < ret, self.u < self.N), SLOT(self.u) != 0))]

from .keys import Lemma
class SpecLemma(Lemma):
    def parts(self):
        w, l, r, g, s = bits('w', 64), bits('l', 64), bits('r', 64), bits('g', 64), bits('s', 64); m = lambda k: k & ((BV(1, 64) << w) - 1); h = lambda k: z3.LShR(k, w)
        def inside(l, r): return And(Or(z3.ULT(h(l), g), And(h(l) == g, z3.ULE(m(l), hi(s)))), Or(z3.ULT(g, h(r)), And(g == h(r), z3.ULE(lo(s), m(r)))))
        return w, l, r, g, s, inside, m, h, [z3.UGE(w, 1), z3.ULE(w, 46), s != 0, z3.LShR(s, w) == 0, z3.ULE(l, r), z3.ULT(h(r), 1024)]
@proof
class PointIsRange(SpecLemma):
    name = 'lemma: one-infix range = point'; props = ('C14', 'C06')
    about = 'the contract of RangeQueryInfixStore for l = r is the contract of PointQueryInfixStore, and the lowest bit of the queried infix does not matter'
    def formula(self):
        w, l, r, g, s, inside, m, h, hyp = self.parts(); pt = lambda k: And(g == h(k), z3.ULE(lo(s), m(k)), z3.ULE(m(k), hi(s)))
        return hyp, And(inside(l, l) == pt(l), pt(l) == pt(l | 1))
@proof
class Wider(SpecLemma):
    name = 'lemma: wider infix range'; props = ('C14', 'C06')
    about = 'an element that meets the infix range [l, r] meets every wider infix range'
    def formula(self):
        w, l, r, g, s, inside, m, h, hyp = self.parts(); l2, r2 = bits('l2', 64), bits('r2', 64)
        return hyp + [z3.ULE(l2, l), z3.ULE(r, r2), z3.ULT(h(r2), 1024)], Implies(inside(l, r), inside(l2, r2))
@proof
class WiderFilter(Lemma):
    name = 'lemma: wider key range'; props = ('C14',)
    about = 'from the contract of RangeQuery (a boundary key in the range, a partial boundary key that is a prefix, or an element met by the infixes): with a monotone infix mapping (order lemma) a wider key range stays true'
    def formula(self):
        # keys and infixes as integers; prev < l <= next boundaries of l, prev2 < l2 <= next2 of l2; pl..ph the keys that start with the prefix stored for prev; e the element's interval
        I = z3.Ints('prev next prev2 next2 l r l2 r2 ph xl xr xl2 xr2 elo ehi'); prev, nxt, prev2, nxt2, l, r, l2, r2, ph, xl, xr, xl2, xr2, elo, ehi = I; B = z3.Bools('partial has'); part, has = B
        ans = lambda n, l, r, x, y, p: Or(n <= r, And(has, Or(And(part, l <= p), And(elo <= y, x <= ehi))))
        hyp = [prev < l, l <= nxt, prev2 < l2, l2 <= nxt2, l <= r, l2 <= l, r <= r2, ph >= prev, xl <= xr, xl2 <= xr2,
               Or(And(prev2 == prev, nxt2 == nxt), nxt2 <= prev),       # neighbouring boundary keys: the same gap or a gap further left
               Implies(prev2 == prev, And(xl2 <= xl, Implies(r2 < nxt, xr <= xr2)))]
        return hyp, Implies(ans(nxt, l, r, xl, xr, ph), Or(And(prev2 == prev, ans(nxt2, l2, r2, xl2, xr2, ph)), And(prev2 != prev, nxt2 <= r2)))
