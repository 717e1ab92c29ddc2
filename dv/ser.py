"""Contracts of serialization."""
from .store import *
META = 49                                    # bytes of metadata that Size() announces
class Meta(Proof):
    props = ('C04', 'C12'); timeout = 30; joint = True; refute_cases = (); keep = (r'.*mersenne_twister_engine<.*>::seed\(',)
    about = 'the metadata of every filter is written inside the announced bytes, and a filter that reads it accepts it, reads the same number of bytes and gets the same infix size, seed and load factor; nothing else of it changes'
    def __init__(self): super().__init__(); self.contracts = (Contract('random engine: seed', r'.*mersenne_twister_engine<.*>::seed\(', self.c_seed, False),)
    def setup(self, ex):
        o = self.o = offsets(self, ex); self.f = {}
        for n in ('a', 'b'):
            c = {}
            for i, w in ((0, 4), (5, 4), (4, 4), (11, 4)):
                for k in range(w): c[o[i] + k] = z3.BitVec(f'{n if i != 11 else "const"}_{i}_{k}', 8)      # load_factor_alt_ is a constant member: the same number in every filter
            ex.region(n, 'cells', BV(o[9], 64), c, writable=n == 'b')
        ex.assume(z3.Not(z3.fpIsNaN(z3.fpBVToFP(cell32(ex.mem['a'], o[11]), z3.Float32()))))
        self.m0 = ex.region('out', 'bytes', BV(META, 64)); return [Ptr.to('a'), Ptr.to('b'), Ptr.to('out')]
    seeded = None
    def c_seed(self, ex, a, mem, g, line):
        self.seeded = a[1]; ex.ob('random engine: of the new filter', g, z3.BoolVal(len(a[0].alts) == 1 and a[0].alts[0][1] == 'b'), 'pre', line); ex.ob('random engine: with the stored seed', g, a[1] == zx(cell32(mem['a'], self.o[5]), a[1].size()), 'pre', line)
    def post(self, ex, ret, mem):
        e = lambda i: cell32(mem['a'], self.o[i]) == cell32(mem['b'], self.o[i])
        return [('all announced bytes are used', ret == META), ('same infix size', e(0)), ('same seed', e(5)), ('same load factor', e(4)), ('the random engine starts from the seed', z3.BoolVal(self.seeded is not None))]
for gen, nm in (('gen', 'general'), ('int', 'integer')): proof(type(f'Meta_{gen}', (Meta,), dict(name=f'SerializeMetadata; DeserializeMetadata ({nm} filter)', entry=f'dv_meta_{gen}')))
