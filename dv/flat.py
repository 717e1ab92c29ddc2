"""Arrays out: read-over-write expansion, then Ackermann's reduction; the result is pure QF_BV, decided by bit-blasting and SAT."""
import z3
class NotFlat(Exception): pass
def select(a, i, cache):
    k = (a.get_id(), i.get_id())
    if k in cache: return cache[k][0]
    if z3.is_store(a):
        b, j, v = a.children(); c = z3.simplify(j == i)
        r = v if z3.is_true(c) else select(b, i, cache) if z3.is_false(c) else z3.If(c, v, select(b, i, cache))
    elif a.decl().kind() == z3.Z3_OP_ITE:
        c, x, y = a.children(); r = z3.If(c, select(x, i, cache), select(y, i, cache))
    elif z3.is_K(a): r = a.children()[0]
    elif z3.is_const(a): r = z3.Select(a, i)
    elif z3.is_quantifier(a) and a.is_lambda(): r = z3.substitute_vars(a.body(), i)
    else: raise NotFlat(str(a.decl()))
    cache[k] = (r, a, i); return r
def expand(es):
    """rewrite selects bottom up"""
    memo = {}; cache = {}; keep = []
    def go(root):
        st = [root]
        while st:
            e = st[-1]; i = e.get_id()
            if i in memo: st.pop(); continue
            if z3.is_quantifier(e):
                if e.is_lambda(): memo[i] = e; keep.append(e); st.pop(); continue
                raise NotFlat('quantifier')
            ch = e.children(); todo = [c for c in ch if c.get_id() not in memo]
            if todo: st.extend(todo); continue
            nc = [memo[c.get_id()] for c in ch]
            if z3.is_select(e):
                r = select(nc[0], nc[1], cache)
                if r.get_id() != e.get_id() and not (z3.is_select(r) and z3.is_const(r.children()[0])):
                    keep.append(r); r2 = go2(r); r = r2
            else: r = e.decl()(*nc) if ch and any(a.get_id() != b.get_id() for a, b in zip(ch, nc)) else e
            memo[i] = r; keep.append(r); keep.append(e); st.pop()
        return memo[root.get_id()]
    def go2(r): return r   # results of select() contain only selects over constants
    return [go(e) for e in es], keep
def deep(es):
    for _ in range(6):
        es, k = expand(es)
        if not any(pending(e) for e in es): return es
    raise NotFlat('nested')
def walk(e, seen, f):
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); f(x); st.extend(x.children() if not z3.is_quantifier(x) else [])
def pending(e):
    r = []
    def f(x):
        if z3.is_select(x) and not z3.is_const(x.children()[0]): r.append(x)
    walk(e, set(), f); return bool(r)
def ackermann(es):
    """replace select(const array, index) and uninterpreted applications by fresh constants with congruence constraints"""
    seen = set(); apps = {}
    def f(x):
        if z3.is_select(x): apps.setdefault(x.children()[0].get_id(), []).append(x)
        elif z3.is_app(x) and x.num_args() > 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: apps.setdefault(x.decl().get_id(), []).append(x)
        elif z3.is_array(x) and not z3.is_const(x): raise NotFlat('array term')
        elif z3.is_eq(x) and z3.is_array(x.children()[0]): raise NotFlat('array equality')
    for e in es: walk(e, seen, f)
    # innermost first: order by dependency (an application may occur in another's arguments)
    allapps = [x for l in apps.values() for x in l]
    if not allapps: return es, {}
    sub = []; n = 0; cons = []
    depth = {}
    def dep(x):
        c = []
        def g(y):
            if y.get_id() != x.get_id() and (z3.is_select(y) or (z3.is_app(y) and y.num_args() > 0 and y.decl().kind() == z3.Z3_OP_UNINTERPRETED)): c.append(y)
        walk(x, set(), g); return c
    def lvl(x):
        if x.get_id() not in depth: depth[x.get_id()] = 1 + max([lvl(y) for y in dep(x)] + [0])
        return depth[x.get_id()]
    allapps.sort(key=lvl); mp = {}
    groups = {}
    import itertools
    for L, grp in itertools.groupby(allapps, key=lvl):
        grp = list(grp); cur = []
        for x in grp:
            args = x.children()[1:] if z3.is_select(x) else x.children(); key = x.children()[0].get_id() if z3.is_select(x) else x.decl().get_id()
            a2 = [z3.substitute(a, *sub) if sub else a for a in args]; v = z3.FreshConst(x.sort(), 'rd'); mp[str(v)] = x
            for a3, v3 in groups.get(key, []):
                eq = z3.simplify(z3.And(*[p == r for p, r in zip(a2, a3)]))
                if not z3.is_false(eq): cons.append(z3.Implies(eq, v == v3))
            groups.setdefault(key, []).append((a2, v)); cur.append((x, v))
        # substitute needs the terms as they look after the earlier substitutions
        sub = sub + cur
    def subst(e):
        # replace bottom-up in one pass
        return z3.substitute(e, *sub)
    out = [fix(e, sub) for e in es]
    return out + cons, mp
def fix(e, sub):
    m = {x.get_id(): v for x, v in sub}; memo = {}; keep = []
    st = [e]
    while st:
        x = st[-1]; i = x.get_id()
        if i in memo: st.pop(); continue
        if i in m: memo[i] = m[i]; st.pop(); continue
        ch = x.children(); todo = [c for c in ch if c.get_id() not in memo]
        if todo: st.extend(todo); continue
        nc = [memo[c.get_id()] for c in ch]
        memo[i] = x.decl()(*nc) if ch and any(a.get_id() != b.get_id() for a, b in zip(ch, nc)) else x
        keep.append(memo[i]); st.pop()
    return memo[e.get_id()]
def flatten(es):
    es = [z3.simplify(e) for e in es]
    es = deep(es); es, mp = ackermann(es)
    return [z3.simplify(e) for e in es], mp
TACT = None
def check(es, timeout):
    """es: list of formulas; 'sat' / 'unsat' / 'unknown' / raises NotFlat"""
    fl, mp = flatten(es)
    t = z3.TryFor(z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'simplify', 'max-bv-sharing', 'bit-blast', 'aig', 'sat'), int(timeout * 1000))
    s = t.solver()
    for e in fl: s.add(e)
    return str(s.check()), s
