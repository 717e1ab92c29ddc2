#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]  --  decide one property of /repo's working tree.

1. Deductive part (dv/): LLVM IR of the real functions is generated from /repo, proof obligations are
   generated from the contracts in dv/*.py and discharged by z3 / cvc5.
2. Runtime contract checking (rac/): the same contracts executed on the real code.  It stands in (labelled
   bounded) for functions out of the verifier's reach, and searches a failing input for failed obligations.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Anything else: error of the check.
"""
import json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VERIF_REPO', '/repo'); sys.path.insert(0, HERE)
CC = ['gcc-11'] if shutil.which('gcc-11') else ['gcc']; CXX = ['g++-11'] if shutil.which('g++-11') else ['g++']
NCPU = min(8, os.cpu_count() or 1)

# property -> list of (driver, mode, histories per job, share of the time)
RAC = {
 'C01': [('api', 'ins', 2, 4), ('api', 'bulk', 4, 1)],
 'C02': [('api', 'del', 2, 4), ('store', 'raw', 16, 1), ('prim', 'update', 8192, 1)],
 'C03': [('api', 'shrink', 2, 4), ('store', 'shrink', 32, 1)],
 'C04': [('api', 'ser', 2, 1)],
 'C05': [('api', 'bulk', 4, 1)],
 'C06': [('api', 'exact', 2, 3), ('store', 'query', 16, 1)],
 'C07': [('store', 'list', 32, 3), ('store', 'shrink', 32, 1)],
 'C08': [('store', 'raw', 16, 3), ('store', 'query', 16, 1)],
 'C09': [('prim', 'bits', 65536, 1), ('prim', 'store', 8192, 1)],
 'C10': [('prim', 'bits', 65536, 1), ('prim', 'store', 8192, 1)],
 'C11': [('prim', 'key', 32768, 2), ('api', 'exact', 2, 1)],
 'C12': [('api+asan', 'ins', 2, 2), ('api+asan', 'del', 2, 2), ('api+asan', 'ser', 2, 2), ('api+asan', 'shrink', 2, 1), ('api+asan', 'bulk', 4, 1), ('api+asan', 'u64', 3, 1), ('store+asan', 'raw', 8, 1), ('store+asan', 'list', 16, 1)],
 'C13': [('api', 'u64', 3, 1)],
 'C14': [('api', 'mono', 2, 1)],
 'C15': [('api', 'det', 2, 1)],
 'C16': [('map', 'wh', 4, 1), ('map', 'wh_int', 4, 1)],
}
RAC_SECONDS = {'quick': 40, 'thorough': 300}
DV_LIMIT = {'quick': 520, 'thorough': 560}
PROOF_LEVEL = ('C09', 'C10')
TRUSTED = ['clang 18 front end (-O1 without LLVM passes, then inlining, SROA, early-cse, instsimplify, simplifycfg): the proofs are about this LLVM IR of the real functions',
           'the VC generator and its semantics of LLVM IR and x86 bit instructions (dv/sym.py), array elimination (dv/flat.py), z3 4.x / cvc5',
           'partial correctness: termination of loops is not proved except where a loop is unrolled completely',
           'lemmas used without proof: multiplication is monotone and distributes (slot offsets); the prefix count of run ends is monotone (induction over its definition)',
           'preconditions (store invariant: capacity 2..2^21 slots, width 1..57, cached counts right) are established by the callers; callers not under contract are covered by runtime checks only']
VARIANT = {'api': '-DPUBLIC_ONLY', 'prim': '-DBITS_ONLY'}

class BuildError(Exception): pass

def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace', **kw)

class Build:
    """compiles the runtime contract checkers against /repo's current sources, in a scratch directory"""
    def __init__(self, tmp): self.tmp = tmp; self.notes = []; self.bin = {}; self.lock = threading.Lock()
    def objs(self, asan):
        d = os.path.join(self.tmp, 'asan' if asan else 'plain'); os.makedirs(d, exist_ok=True); ps = []
        for f in ('kv', 'lib', 'wh', 'wh_int'):
            fl = ['-fsanitize=address', '-O1'] if asan else ['-O2']
            ps.append((f, subprocess.Popen(CC + fl + ['-g', '-march=native', '-DNDEBUG', '-w', '-c', f'{REPO}/include/wormhole/{f}.c', '-o', f'{d}/{f}.o'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for f, p in ps:
            o = p.communicate()[0]
            if p.returncode: raise BuildError(f'{f}.c does not compile:\n{o[-2000:]}')
        return [f'{d}/{f}.o' for f in ('kv', 'lib', 'wh', 'wh_int')]
    def all(self, names):
        asans = {n.endswith('+asan') for n in names}; objs = {}; errs = []
        def one_objs(a):
            try: objs[a] = self.objs(a)
            except BuildError as e: errs.append(str(e))
        def comp(n, var):
            a = n.endswith('+asan'); src = n.split('+')[0]; o = os.path.join(self.tmp, n + '.o')
            fl = ['-fsanitize=address,bounds', '-fno-sanitize-recover=all', '-O1'] if a else ['-O2']
            r = sh(CXX + fl + ['-g', '-march=native', '-std=c++17', '-w', f'-I{REPO}/include', f'-I{HERE}/rac', '-c', f'{HERE}/rac/{src}.cpp', '-o', o] + ([var] if var else []))
            return r.returncode, r.stdout, o
        res = {}
        def one(n):
            rc, out, o = comp(n, None); src = n.split('+')[0]
            if rc and src in VARIANT:
                with self.lock: self.notes.append(f'{n}: function-level contracts do not attach to this tree (signatures changed): public-interface contracts only')
                rc, out2, o = comp(n, VARIANT[src]); out = out if rc == 0 else out2
            res[n] = (rc, out, o)
        ts = [threading.Thread(target=one_objs, args=(a,)) for a in asans] + [threading.Thread(target=one, args=(n,)) for n in names]
        [t.start() for t in ts]; [t.join() for t in ts]
        if errs: raise BuildError(errs[0])
        for n in names:
            rc, out, o = res[n]
            if rc:
                with self.lock: self.notes.append(f'{n}: does not attach to this tree'); self.last_err = out
                continue
            a = n.endswith('+asan'); b = os.path.join(self.tmp, n + '.bin')
            r = sh(CXX + (['-fsanitize=address,bounds'] if a else []) + [o] + objs[a] + ['-lpthread', '-o', b])
            if r.returncode: self.notes.append(f'{n}: link failed'); self.last_err = r.stdout; continue
            self.bin[n] = b
        return self.bin

def limits():
    try: resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    except Exception:
        try: h = resource.getrlimit(resource.RLIMIT_STACK)[1]; resource.setrlimit(resource.RLIMIT_STACK, (h, h))
        except Exception: pass
    os.setsid()

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=1:handle_segv=0:allow_user_segv_handler=1', ALRM='110')
def run_rac(binary, mode, seed, start, count, seconds):
    p = subprocess.Popen([binary, mode, str(seed), str(start), str(count), f'{seconds:.1f}'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', preexec_fn=limits, env=ENV, cwd='/')
    try: out = p.communicate(timeout=seconds + 400)[0]; rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); out = p.communicate()[0]; rc = 'timeout'
    return rc, out

class Rac:
    """runs runtime contract checking jobs on all cores within a time budget"""
    def __init__(self, bins, seed): self.bins = bins; self.seed = seed; self.fail = None; self.stats = {}; self.lock = threading.Lock()
    def run(self, jobs, seconds, workers=NCPU):
        jobs = [j for j in jobs if j[0] in self.bins]
        if not jobs: return
        end = time.time() + seconds; nxt = {i: 0 for i in range(len(jobs))}; spent = {i: 0.0 for i in range(len(jobs))}
        def worker():
            while time.time() < end and not self.fail:
                with self.lock:
                    i = min(range(len(jobs)), key=lambda k: spent[k] / jobs[k][3]); d, m, n, w = jobs[i]; st = nxt[i]; nxt[i] += n; spent[i] += 0.05
                t = time.time(); rc, out = run_rac(self.bins[d], m, self.seed, st, n, max(1.0, end - t + 20))
                with self.lock:
                    spent[i] += time.time() - t; s = self.stats.setdefault(f'{d}:{m}', {'histories': 0, 'evals': 0, 'calls': 0})
                    g = re.search(r'RAC-OK histories=(\d+) evals=(\d+) calls=(\d+)', out)
                    if g and rc == 0:
                        s['histories'] += int(g[1]); s['evals'] += int(g[2]); s['calls'] += int(g[3]); continue
                self.confirm(d, m, st, n, rc, out)
        ts = [threading.Thread(target=worker) for _ in range(workers)]; [t.start() for t in ts]; [t.join() for t in ts]
    def confirm(self, d, m, st, n, rc, out):
        # a failing job is rerun, history by history, before it is believed
        for i in range(st, st + n) if n <= 64 else [None]:
            a, c = (i, 1) if i is not None else (st, n)
            rc2, out2 = run_rac(self.bins[d], m, self.seed, a, c, 600)
            if rc2 == 0: continue
            line = next((l for l in out2.splitlines() if 'RAC-FAIL' in l), None) or next((l for l in out2.splitlines() if 'ERROR: AddressSanitizer' in l or 'runtime error' in l), f'process ended with {rc2}')
            with self.lock:
                if not self.fail: self.fail = {'driver': d, 'mode': m, 'seed': self.seed, 'start': a, 'count': c, 'clause': line[:1500], 'output': out2[-6000:]}
            return
        with self.lock: self.stats.setdefault('unconfirmed', []).append(f'{d}:{m} {st}+{n}: {rc} {out[-200:]}')

def load_known():
    try: return json.load(open(os.path.join(HERE, 'known_findings.json')))
    except Exception: return []

def main():
    if sys.argv[1] == '--setup':
        print('nothing to build: every check builds what it needs from the current tree'); sys.exit(0)
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1); t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=f'diva_verif_{prop}_'); rc = 2
    try: rc = check(prop, tier, seed, t0, tmp)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush(); sys.exit(rc)

def deductive(prop, tier, tmp):
    """the proofs of this property's contracts on the current tree (dv/), in a process of their own"""
    out = os.path.join(tmp, 'dv.json'); d = os.path.join(tmp, 'dv'); os.makedirs(d)
    py = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python'
    cmd = [py, '-m', 'dv.run', prop, tier, REPO, d, out]
    try:
        p = subprocess.Popen(cmd, cwd=HERE, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, preexec_fn=os.setsid, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
        try: err = p.communicate(timeout=DV_LIMIT[tier])[1]
        except subprocess.TimeoutExpired: err = 'time limit'
        finally:
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
        r = json.load(open(out)) if os.path.exists(out) else {'error': (err or '')[-600:]}
    except OSError as e: r = {'error': str(e)}
    shutil.rmtree(d, ignore_errors=True); r['cmd'] = ' '.join(cmd[:5]) + ' TMP OUT'
    if r.get('error'): print('note: deductive part not available on this tree:', r['error'][:300].replace('\n', ' '))
    for u in r.get('unattached', []): print(f'note: contract of {u} does not attach to this tree (bounded stand-in only)')
    for u in r.get('undecided', [])[:8]: print(f'note: undecided obligation (bounded stand-in only): {u[:200]}')
    return r

def check(prop, tier, seed, t0, tmp):
    ev_path = os.path.join(HERE, 'evidence', prop + '.json'); replay = os.path.join(HERE, 'evidence', f'{prop}.replay.txt')
    for x in (ev_path, replay):
        if os.path.exists(x): os.unlink(x)
    jobs = RAC[prop]; b = Build(tmp)
    dv = deductive(prop, tier, tmp)
    try: bins = b.all(sorted({j[0] for j in jobs}))
    except BuildError as e: print('check error: /repo does not build:', e); return 2
    if not bins:
        print('check error: no contract checker attaches to this tree\n', getattr(b, 'last_err', '')[-3000:]); return 2
    for n in b.notes: print('note:', n)
    rac = Rac(bins, seed)
    failed = dv.get('failed', [])
    rac.run(jobs, RAC_SECONDS[tier])
    viol = None
    if rac.fail:
        f = rac.fail
        viol = f'VIOLATION property={prop} replay={replay}'
        txt = [f'property {prop} is violated by the code in {REPO}', f'failed contract clause and history: {f["clause"]}', '']
        txt += [f'obligation that failed: {x["name"]}\n{x.get("detail", "")}' for x in failed]
        txt += ['replay: build rac/%s.cpp against %s (see check.py) and run:' % (f['driver'].split('+')[0], REPO), f'  {f["driver"]} {f["mode"]} {f["seed"]} {f["start"]} {f["count"]} 600', '', f['output']]
        open(replay, 'w').write('\n'.join(txt) + '\n')
    elif failed:
        conf = [x for x in failed if x.get('replayed')]
        viol = f'VIOLATION property={prop} replay={replay}' + ('' if conf else ' no-failing-input-found')
        open(replay, 'w').write('\n'.join(f'failed obligation: {x["name"]}\nverifier: {x.get("detail", "")}\n' for x in conf + [y for y in failed if y not in conf]))
    st = rac.stats; ev = sum(s['evals'] for k, s in st.items() if k != 'unconfirmed'); hi = sum(s['histories'] for k, s in st.items() if k != 'unconfirmed')
    cov = {'evaluations': ev, 'distinct_nontrivial': hi, 'rule': 'runtime contract checking (bounded stand-in): each history/case is generated from (seed, index) and is distinct by its index; every contract clause evaluated on it counts as one evaluation',
           'samples': [f'{k}: {v}' for k, v in st.items()], 'notes': b.notes}
    level = 'exploration'; assume = ['runtime contract checking covers only the generated histories', 'the known findings (known_findings.json) are outside the claimed domain']
    if dv.get('functions'):
        fs = dv['functions']; cov.update(obligations=dv['obligations'], discharged=dv['discharged'], checker_cmd=dv['cmd'], trusted_base=TRUSTED, functions_under_contract=fs, back_ends=dv['backend'], solver_cpu_s=dv['cpu_s'], contracts_assumed_at_calls=dv['callee_contracts'], undecided=dv['undecided'], unattached=dv['unattached'])
        if prop in PROOF_LEVEL and dv['obligations'] == dv['discharged'] and not dv['undecided'] and not dv['unattached']: level = 'proof'
        assume = TRUSTED + assume
    cov['deductive_error'] = dv.get('error')
    json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': assume, 'wall_s': round(time.time() - t0, 1), 'violations': 1 if viol else 0}, open(ev_path, 'w'), indent=1)
    for k in load_known():
        if k.get('property') == prop and k.get('status') == 'open': print(f'KNOWN-FINDING: property={prop} {k["what"]}')
    print(f'{prop} {tier}: {hi} histories, {ev} contract evaluations' + (f', {dv["discharged"]}/{dv["obligations"]} obligations of {len(dv["functions"])} functions' if dv.get('functions') else '') + f', {time.time() - t0:.0f} s')
    if viol: print(viol); return 1
    return 0
main()
