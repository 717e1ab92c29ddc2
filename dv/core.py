"""Contracts, obligations, solvers."""
import os, re, subprocess, tempfile, time, z3
from . import sym
from .sym import *
from .ir import Unsupported

class Contract:
    """contract of a callee: apply() asserts the precondition, returns the result and applies the effects"""
    pure = True
    def __init__(self, name, regex, fn, pure=True): self.name = name; self.rx = re.compile(regex); self.fn = fn; self.pure = pure
    def match(self, d): return bool(self.rx.match(d))
    def apply(self, ex, args, mem, guard, line, d): return self.fn(ex, args, mem, guard, line)

def bit(mem, q):
    """bit q of a 'words' region"""
    return z3.Extract(0, 0, z3.LShR(z3.Select(mem, z3.LShR(q, 6)), q & 63))
def bitb(mem, q):
    """bit q of a 'bytes' region"""
    return z3.Extract(0, 0, z3.LShR(z3.Select(mem, z3.LShR(q, 3)), zx(q & 7, 8)))

class Proof:
    name = entry = None; keep = (); props = (); contracts = (); timeout = 60; bounded = None; about = ''; joint = False; heavy = False; quick = (); cost = 1; unroll = 3; refute = False; refute_cases = (None,); rcase = None
    cases = None            # list of [(var, value)] case splits of the postcondition obligations
    def __init__(self): self.dropped = set()
    def setup(self, ex): raise NotImplementedError
    def post(self, ex, ret, mem): return []
    def policy(self, ex, h): return None
    def split(self, ex, o): return None      # case split of an obligation: a list of conditions that cover everything
    def loopname(self, ex, h): return ex.loop_name(h)

def solve(hyps, goal, timeout, want_model=False):
    """'unsat' (proved) | 'sat' | 'unknown'"""
    s = z3.Solver(); s.set('timeout', int(timeout * 1000))
    for h in hyps: s.add(h)
    s.add(z3.Not(goal)); r = str(s.check()); m = s.model() if r == 'sat' else None
    return r, m, s
CVC5 = None
def cvc5(s, timeout):
    import shutil
    exe = shutil.which('cvc5')
    if not exe: return 'unknown'
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write('(set-logic ALL)\n' + s.to_smt2())
    try:
        o = subprocess.run([exe, f'--tlimit={int(timeout * 1000)}', f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout + 10).stdout.strip().split('\n')[0]
        return o if o in ('sat', 'unsat') else 'unknown'
    except subprocess.TimeoutExpired: return 'unknown'
    finally: os.unlink(f.name)

class Result:
    def __init__(self, p): self.name = p.name; self.obls = []; self.failed = []; self.unknown = []; self.error = None; self.time = 0.0; self.backend = {}; self.contracts = []; self.rounds = 0; self.models = []; self.kinds = {}

def build(p, module, tmp):
    ir = module.extract(p.entry, list(p.keep), tmp)
    return ir
def generate(p, ir, quick=False):
    ex = Exec(ir, p.entry); ex.quick = quick; ex.contracts = list(p.contracts); ex.loops_policy = p.policy; p.ex = ex
    args = p.setup(ex); ex.mem0 = dict(ex.mem); p.args = args
    npre = len(ex.asm); rets = ex.run(args); ex.npre = npre
    for k, (g, ret, mem, env) in enumerate(rets):
        p.env = env
        for n, c in p.post(ex, ret, mem): ex.ob(f'{n}', g, c, 'post')
    ex.rets_ = rets
    return ex

_arr = {}
def has_array(e):
    """does the formula mention memory?"""
    st = [e]; seen = set()
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_array(x) or z3.is_quantifier(x): return True
        st.extend(x.children())
    return False
def bvsolver(timeout): return z3.TryFor(z3.Then('simplify', 'propagate-values', 'solve-eqs', 'simplify', 'max-bv-sharing', 'bit-blast', 'sat'), int(timeout * 1000)).solver()
def houdini(p, ir, log):
    """drop candidate invariants that are not inductive, scalar candidates first (without the memory hypotheses)"""
    rounds = 0
    def invs(ex, arr): return [o for o in ex.obls if isinstance(o.kind, tuple) and o.kind[0] == 'inv' and not o.kind[2].startswith('!') and not z3.is_true(o.goal) and (has_array(o.goal) and not p.joint) == arr]
    while True:
        ex = generate(p, ir); rounds += 1; bad = set(); groups = {}
        if not ex.loops: return ex, rounds
        for o in invs(ex, False): groups.setdefault((o.hyp, o.name.rsplit('"', 1)[1], o.kind[1]), []).append(o)
        for (hyp, _, _), os_ in groups.items():
            hy = [h for h in ex.asm[:hyp] if p.joint or not has_array(h)]; live = [o for o in os_ if o.kind[1:] not in bad]
            while live:
                s = bvsolver(p.timeout) if not p.joint else z3.Solver()
                if p.joint: s.set('timeout', int(p.timeout * 1000))
                s.add(*hy); s.add(z3.Not(z3.And(*[o.goal for o in live]))); r = s.check()
                if r == z3.unsat: break
                if r == z3.sat: m = s.model(); out = [o for o in live if not z3.is_true(m.eval(o.goal, model_completion=True))]
                else: out = list(live)
                if not out: break
                bad |= {o.kind[1:] for o in out}; ids = {id(o) for o in out}; live = [o for o in live if id(o) not in ids]
        if not bad: break
        p.dropped |= bad
    if p.joint: return generate(p, ir, quick=True), rounds
    # scalar invariants implied by the others are left out (the conjunction stays the same)
    for h, (inv, info, fresh, m2) in getattr(ex, 'cutinfo', {}).items():
        cs = [(n, c) for n, c in inv(ex, info, fresh, m2, 'assume') if not has_array(c) and not n.startswith('!')]; pre = [x for x in ex.asm[:ex.npre] if not has_array(x)]
        for n, c in list(cs):
            s = bvsolver(10); s.add(*pre); s.add(*[d for k, d in cs if k != n]); s.add(z3.Not(c))
            if s.check() == z3.unsat: cs = [x for x in cs if x[0] != n]; p.dropped.add((h, n))
    # memory candidates: one per loop is enough; each is tried alone
    ex = generate(p, ir, quick=True); rounds += 1; todo = {}
    for o in invs(ex, True): todo.setdefault(o.kind[1], []).append(o.kind[2]) if o.kind[2] not in todo.get(o.kind[1], []) else None
    for h in sorted(todo, key=ex.rpo.index):
        found = False
        for n in todo[h]:
            keepd = set(p.dropped); p.dropped |= {(h, k) for k in todo[h] if k != n} | {(h2, k) for h2 in todo if h2 != h and ex.rpo.index(h2) > ex.rpo.index(h) for k in todo[h2]}
            e2 = generate(p, ir, quick=True); rounds += 1; ok = True; t = time.time()
            for o in invs(e2, True):
                if o.kind[1] != h: continue
                try: r, _ = flatcheck(e2.asm[:o.hyp] + [z3.Not(o.goal)], 4)
                except Exception: r = 'unknown'
                if r == 'unknown': r, m, be = decide(p, e2, o)
                if r != 'unsat': ok = False; break
            if log: log(f'   {"kept" if ok else "dropped " + r} {time.time() - t:6.1f}s loop {ex.loop_name(h)} {n}')
            p.dropped = keepd
            if ok: p.dropped |= {(h, k) for k in todo[h] if k != n}; found = True; break
            p.dropped.add((h, n))
    ex = generate(p, ir, quick=True)
    return ex, rounds
def flatcheck(es, t):
    from . import flat
    return flat.check(es, t)

def decide(p, ex, o):
    """one obligation: (result, model, back end)"""
    hy = ex.asm[:o.hyp]; from . import flat
    if not has_array(o.goal):
        s = bvsolver(p.timeout); s.add(*[h for h in hy if not has_array(h)]); s.add(z3.Not(o.goal)); r = str(s.check())
        if r == 'unsat': return r, None, 'z3 (SAT)'
    sp = p.split(ex, o)
    if sp:
        try: return par_check([hy + [c, z3.Not(o.goal)] for c in sp], p.timeout * 2)
        except flat.NotFlat: pass
    r = 'unknown'
    try:
        r, s = flat.check(hy + [z3.Not(o.goal)], p.timeout); be = 'z3 (SAT)'
        if r == 'sat':
            r, m, s = solve(hy, o.goal, p.timeout)      # a model over the arrays
            return 'sat', m, be
        if r == 'unsat': return r, None, be
    except flat.NotFlat: pass
    r, m, s = solve(hy, o.goal, p.timeout); be = 'z3'
    if r == 'unknown': r = cvc5(s, p.timeout); be = 'cvc5'; m = None
    return r, m, be

SEM = None
def par_check(problems, timeout):
    """QF_BV subproblems of one obligation in worker processes; all must be unsat"""
    from . import flat
    import sys, threading, queue
    d = tempfile.mkdtemp(prefix='dvsplit_'); files = []
    try:
        for k, es in enumerate(problems):
            fl, mp = flat.flatten(es); s = z3.Solver(); s.add(*fl); f = os.path.join(d, f'{k}.smt2'); open(f, 'w').write(s.to_smt2()); files.append(f)
        res = {}; q = queue.Queue(); [q.put(f) for f in files]; stop = []
        def w():
            while not stop:
                try: f = q.get_nowait()
                except queue.Empty: return
                if SEM: SEM.acquire()
                try: o = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'satworker.py'), f, str(timeout)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout + 60).stdout.strip()
                except subprocess.TimeoutExpired: o = 'unknown'
                finally:
                    if SEM: SEM.release()
                res[f] = o or 'unknown'
                if res[f] != 'unsat': stop.append(res[f])
        ts = [threading.Thread(target=w) for _ in range(8)]; [t.start() for t in ts]; [t.join() for t in ts]
        if 'sat' in res.values(): return 'sat', None, 'z3 (SAT)'
        if len(res) < len(files) or any(v != 'unsat' for v in res.values()): return 'unknown', None, 'z3 (SAT)'
        return 'unsat', None, 'z3 (SAT)'
    finally:
        import shutil; shutil.rmtree(d, ignore_errors=True)

def prove(p, module, tmp, log=None):
    R = Result(p); t0 = time.time()
    try:
        if getattr(p, 'lemma', False):
            hyp, goal = p.formula(); r, m, s = solve(hyp, goal, p.timeout); R.obls = [p.name]; v, _, _ = solve(hyp, z3.BoolVal(False), p.timeout)
            if v != 'sat': R.error = 'contradictory hypotheses'
            elif r == 'unsat': R.backend['z3'] = 1
            else: R.unknown.append((p.name, 'lemma', ''))
            R.time = time.time() - t0; return R
        p.module = module; p.tmp = tmp; ir = build(p, module, tmp)
        for case in (p.cases or [None]):
            p.case = case; p.dropped = set() if case is not None else p.dropped
            prove_case(p, ir, R, log)
            if R.error: break
    except Unsupported as e: R.error = 'not within reach: ' + str(e)
    except Exception as e:
        import traceback; R.error = f'{type(e).__name__}: {e} ' + traceback.format_exc()[-600:]
    R.time = time.time() - t0
    return R

def prove_case(p, ir, R, log):
        ex, r = houdini(p, ir, log); R.rounds += r
        R.contracts = sorted(set(R.contracts) | ex.used_contracts)
        # vacuity: the precondition must be satisfiable
        s = z3.Solver(); s.set('timeout', 30000)
        for h in ex.asm[:ex.npre]: s.add(h)
        if str(s.check()) == 'unsat': R.error = 'contradictory precondition'; return R
        # and so must the assumptions of the whole function (callee contracts, lemmas, invariants) on some way to a return
        if ex.rets_ and p.joint:
            s = z3.Solver(); s.set('timeout', 20000); s.add(*ex.asm); s.add(z3.Or(*[g for g, *_ in ex.rets_]))
            if str(s.check()) == 'unsat': R.error = 'contradictory assumptions'; return R
        tag = f' [case {p.case}]' if p.case is not None else ''
        for o in ex.obls:
            R.obls.append(o.name + tag)
            if isinstance(o.kind, tuple) and not o.kind[2].startswith('!'): R.backend['z3 (SAT)'] = R.backend.get('z3 (SAT)', 0) + 1; continue   # decided above
            if z3.is_true(o.goal): R.backend['trivial'] = R.backend.get('trivial', 0) + 1; continue
            t = time.time(); r, m, be = decide(p, ex, o)
            if r == 'unsat': R.backend[be] = R.backend.get(be, 0) + 1
            elif r == 'sat': R.failed.append((o.name + tag, o.kind, o.line, m)); R.models.append((o, m, p.case))
            else: R.unknown.append((o.name + tag, o.kind, o.line))
            if log: log(f'   {r:8s} {time.time() - t:6.1f}s {o.name}{tag}  {o.line[:90] if r != "unsat" else ""}')
            if len(R.failed) >= 3: break
        R.ex = ex
