"""Proves the contracts of one property on the current tree:  python3-vt -m dv.run PROPERTY TIER REPO TMP OUT"""
import json, multiprocessing as mp, os, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
LIMIT = {'quick': 420, 'thorough': 500}
def load():
    from . import contracts
    for n in ('store', 'keys', 'query', 'filter', 'ser', 'lists'):
        if os.path.exists(os.path.join(HERE, n + '.py')): __import__(f'dv.{n}')
    return contracts.PROOFS
def worker(u):
    i, case, ll, tmp, so, deadline = u
    if time.time() > deadline: return {'i': i, 'case': case, 'skipped': True}
    from . import core, ir
    P = load()[i]; p = P(); global _mod
    try: _mod
    except NameError: _mod = ir.Module(ll)
    if case is not None: p.cases = [case]
    d = os.path.join(tmp, f'w{os.getpid()}'); os.makedirs(d, exist_ok=True); t = time.time()
    R = core.prove(p, _mod, d); failed = [{'name': f'{p.name}: {n}', 'kind': str(k if isinstance(k, str) else k[0]), 'line': l, 'model': str(m)[:1500]} for n, k, l, m in R.failed]
    rep = None
    if failed or R.unknown:
        try: rep = refute(p, R, _mod, d, so)
        except Exception as e: rep = None; failed and failed[0].update(refute=f'{type(e).__name__}: {e}')
        if rep and not failed: failed = [{'name': f'{p.name}: ' + R.unknown[0][0], 'kind': 'replayed', 'line': '', 'model': ''}]
    return {'i': i, 'case': case, 'obls': len(R.obls), 'ok': sum(R.backend.values()), 'backend': R.backend, 'failed': failed, 'unknown': [x[0] for x in R.unknown], 'error': R.error, 'contracts': R.contracts, 'time': time.time() - t, 'replay': rep}
def refute(p, R, module, d, so):
    """search a concrete input: the proof's own models first, then the function with its loops unrolled"""
    from . import core, replay, flat
    import z3
    if not so: return None
    for o, m, case in R.models:
        if m is None: continue
        t = replay.replay(p, R.ex, m, so, o.name)
        if t: return t
    end = time.time() + 90; names = [n.rsplit(' [case', 1)[0] for n, *_ in R.failed] + [n[0] for n in R.unknown]; ir = None
    for rc in p.refute_cases:
        p2 = type(p)(); p2.case = p.case; p2.rcase = rc; p2.module = module; p2.tmp = d; p2.refute = True; p2.keep = p2.contracts = (); p2.policy = lambda ex, h: ('unroll', p.unroll)
        ir = ir or core.build(p2, module, d); ex = core.generate(p2, ir)
        obls = [o for o in ex.obls if o.kind != 'unwind' and not z3.is_true(o.goal)]; obls.sort(key=lambda o: (o.kind != 'post', o.name not in names))
        for o in obls if len(p.refute_cases) == 1 else obls[:2]:
            if time.time() > end: return None
            try: r, s = flat.check(ex.asm[:o.hyp] + [z3.Not(o.goal)], 20 if len(p.refute_cases) == 1 else 6)
            except flat.NotFlat: r, m, s = core.solve(ex.asm[:o.hyp], o.goal, 20)
            if r == 'sat':
                t = replay.replay(p2, ex, s.model(), so, o.name)
                if t: return t
    return None
def main():
    prop, tier, repo, tmp, out = sys.argv[1:6]; sys.path.insert(0, os.path.dirname(HERE)); from dv import ir, replay, core
    t0 = time.time(); res = {'failed': [], 'notes': [], 'functions': [], 'unattached': [], 'undecided': []}
    try: ll, cpp, dropped = ir.generate(repo, HERE, tmp)
    except Exception as e:
        json.dump({**res, 'error': str(e)[:800]}, open(out, 'w')); return
    mod = ir.Module(ll); P = load(); units = []; so = replay.build(cpp, repo, tmp)
    for i, c in enumerate(P):
        if prop in c.props and (tier == 'thorough' or prop in (c.quick or c.props[:1]) or not c.heavy):
            if not mod.has(c.entry): res['unattached'].append(c.name); continue
            for case in (c.cases or [None]): units.append((i, case, ll, tmp, so, t0 + LIMIT[tier]))
    units.sort(key=lambda u: -P[u[0]].cost)
    base = res
    core.SEM = mp.Semaphore(8); by = {}; last = 0
    with mp.get_context('fork').Pool(8, maxtasksperchild=20) as pool:
        for r in pool.imap_unordered(worker, units):
            by.setdefault(r['i'], []).append(r)
            if time.time() - last > 5: report(prop, tier, P, units, by, dict(base), dropped, t0, out); last = time.time()
    report(prop, tier, P, units, by, dict(base), dropped, t0, out)
def report(prop, tier, P, units, by, res, dropped, t0, out):
    res = json.loads(json.dumps(res)); tot = ok = 0; back = {}; used = set(); cpu = 0.0; want = {}
    for u in units: want[u[0]] = want.get(u[0], 0) + 1
    for i in sorted(want):
        c = P[i]; rs = [r for r in by.get(i, []) if not r.get('skipped')]
        if len(rs) < want[i]: res['undecided'].append(f'{c.name}: time limit')
        if not rs: continue
        n, k = sum(r['obls'] for r in rs), sum(r['ok'] for r in rs); tot += n; ok += k; cpu += sum(r['time'] for r in rs)
        for r in rs:
            for b, x in r['backend'].items(): back[b] = back.get(b, 0) + x
            used |= set(r['contracts'])
            for f in r['failed']:
                res['failed'].append({'name': f['name'], 'detail': f"contract: {c.about}\nkind: {f['kind']}\ninstruction: {f['line']}\nmodel: {f['model']}" + (f"\nREPLAYED ON THE REAL CODE:\n{r['replay']}" if r['replay'] else ''), 'replayed': bool(r['replay'])})
            for u in r['unknown']: res['undecided'].append(f'{c.name}: {u}')
            if r['error']: res['undecided'].append(f"{c.name}: {r['error'][:300]}")
        bad = any(r['failed'] or r['unknown'] or r['error'] for r in rs)
        res['functions'].append({'function': c.name, 'contract': c.about, 'obligations': n, 'discharged': k, 'cases': len(rs), 'seconds': round(sum(r['time'] for r in rs), 1), 'callees_by_contract': sorted({x for r in rs for x in r['contracts']}), 'status': 'failed' if any(r['failed'] for r in rs) else 'undecided' if bad or len(rs) < want[i] else 'proved'})
    res.update(obligations=tot, discharged=ok, backend=back, cpu_s=round(cpu, 1), wall_s=round(time.time() - t0, 1), callee_contracts=sorted(used), dropped=dropped, error=None)
    json.dump(res, open(out + '.tmp', 'w')); os.replace(out + '.tmp', out)
if __name__ == '__main__': main()
