"""LLVM IR of the real code: generation from the tree under test, extraction of one entry, parsing."""
import os, re, shutil, subprocess
def tool(n): return shutil.which(n + '-18') or shutil.which(n) or n
CLANG = [tool('clang++'), '-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-fno-exceptions', '-mbmi', '-mbmi2', '-mlzcnt', '-mpopcnt', '-mavx2', '-w']
PASSES = 'always-inline,function(sroa,early-cse,instsimplify,simplifycfg,sroa,early-cse,instsimplify,simplifycfg,loop-simplify)'
class Unsupported(Exception): pass

def run(cmd, timeout=300, inp=None):
    p = subprocess.run(cmd, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout)
    return p.returncode, p.stdout, p.stderr

def generate(repo, here, tmp):
    """IR of dv/tu.cpp against repo's headers. Lines of tu.cpp that no longer compile (renamed or removed functions) are dropped."""
    src = open(os.path.join(here, 'tu.cpp')).read().split('\n'); dropped = []
    cpp = os.path.join(tmp, 'tu.cpp')
    for _ in range(8):
        open(cpp, 'w').write('\n'.join(src)); ll = os.path.join(tmp, 'tu.ll')
        rc, o, e = run(CLANG + ['-ferror-limit=0', f'-I{repo}/include', '-S', '-emit-llvm', cpp, '-o', ll])
        if rc == 0: return ll, cpp, dropped
        bad = {int(m) for m in re.findall(re.escape(cpp) + r':(\d+):\d+: (?:error|note)', e)}
        bad = {b for b in bad if src[b - 1].lstrip().startswith(('static ', 'X '))}
        if not bad: raise Unsupported('the entry points do not compile: ' + e[:400])
        for b in bad: dropped.append(src[b - 1].strip()[:80]); src[b - 1] = ''
    raise Unsupported('the entry points do not compile')

class Module:
    """text of tu.ll split in functions, with demangled names"""
    def __init__(self, ll):
        self.text = open(ll).read(); self.lines = self.text.split('\n'); self.names = []
        for l in self.lines:
            if l.startswith('define '):
                m = re.search(r'@("[^"]+"|[\w.$]+)\(', l); self.names.append(m[1])
        rc, o, e = run([tool('llvm-cxxfilt')], inp='\n'.join(self.names)); self.dem = dict(zip(self.names, o.split('\n')))
        rc, self.allnames_raw, e = 0, set(re.findall(r'@(_Z[\w.$]+)\(', self.text)), ''
        rc, o, e = run([tool('llvm-cxxfilt')], inp='\n'.join(sorted(self.allnames_raw))); self.demall = dict(zip(sorted(self.allnames_raw), o.split('\n')))
    def has(self, n): return n in self.names
    def extract(self, entry, keep, tmp):
        """IR of entry with everything inlined except functions whose demangled name matches a regex in keep"""
        if entry not in self.names: raise Unsupported(f'{entry} is not there')
        out = []
        for l in self.lines:
            if l.startswith('define '):
                m = re.search(r'@("[^"]+"|[\w.$]+)\(', l); n = m[1]; d = self.dem.get(n, n)
                no = any(re.match(k, d) for k in keep)
                attr = 'noinline' if no or n.startswith('dv_') else 'alwaysinline'
                k = re.search(r'\) (?:(?:local_unnamed_addr|unnamed_addr) )?(#\d+)', l)
                if k: l = l[:k.start(1)] + attr + ' ' + l[k.start(1):]
                else: l = re.sub(r'\) (comdat|align|\{)', f') {attr} \\1', l, count=1)
                l = l.replace('available_externally ', 'linkonce_odr ')
            elif l.startswith('attributes #'):
                for a in ('alwaysinline', 'noinline', 'optnone'): l = re.sub(rf'\b{a}\b ?', '', l)
            out.append(l)
        a = os.path.join(tmp, entry + '.a.ll'); b = os.path.join(tmp, entry + '.b.ll'); c = os.path.join(tmp, entry + '.ll')
        open(a, 'w').write('\n'.join(out))
        rc, o, e = run([tool('llvm-extract'), '-S', '-recursive', f'-func={entry}', a, '-o', b])
        if rc: raise Unsupported('llvm-extract: ' + e[:300])
        rc, o, e = run([tool('opt'), '-S', '-passes=' + PASSES, b, '-o', c])
        if rc: raise Unsupported('opt: ' + e[:300])
        res = IR(open(c).read(), self.demall)
        for l in self.lines:                     # llvm-extract leaves only the declaration of a constant: its value is in the full module
            m = re.match(r'@("[^"]+"|[\w.$]+) = .*?constant (i\d+ -?\d+|float \S+),', l)
            if m: res.globals[m[1]] = m[2]
        return res

class Inst:
    __slots__ = ('res', 'op', 'a', 'text')
    def __init__(self, res, op, a, text): self.res = res; self.op = op; self.a = a; self.text = text
    def __repr__(self): return self.text

NAME = r'%(?:"[^"]+"|[\w.$-]+)'
def split_top(s, sep=','):
    r = []; d = 0; cur = ''; q = False
    for ch in s:
        if ch == '"': q = not q
        if not q:
            if ch in '([{<': d += 1
            elif ch in ')]}>': d -= 1
            elif ch == sep and d == 0: r.append(cur.strip()); cur = ''; continue
        cur += ch
    if cur.strip(): r.append(cur.strip())
    return r
ATTRS = re.compile(r'\b(noundef|dead_on_unwind|writable|nonnull|zeroext|signext|nocapture|readonly|writeonly|readnone|immarg|noalias|returned|align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|sret\((?:[^()]|\([^()]*\))*\)|byval\([^()]*\))\s*')
def type_and_val(s):
    """'i32 noundef %x' -> ('i32', '%x')"""
    s = ATTRS.sub('', s).strip()
    if s[0] in '{[<':
        d = 0
        for i, ch in enumerate(s):
            if ch in '{[<(': d += 1
            elif ch in '}]>)':
                d -= 1
                if d == 0: return s[:i + 1], s[i + 1:].strip()
    m = re.match(r'(%"[^"]+"|[^\s]+)\s+(.*)$', s, re.S)
    if not m: raise Unsupported('operand ' + s)
    return m[1], m[2].strip()

class Func:
    def __init__(self, name, ret, params): self.name = name; self.ret = ret; self.params = params; self.blocks = {}; self.order = []
class IR:
    def __init__(self, text, dem):
        self.types = {}; self.funcs = {}; self.globals = {}; self.dem = dem; f = None; bb = None
        text = re.sub(r'\[\n(.*?)\n\s*\]', lambda m: '[' + m[1].replace('\n', ' ') + ' ]', text, flags=re.S)  # switch on one line
        for l in text.split('\n'):
            if f is None:
                m = re.match(r'(%(?:"[^"]+"|[\w.$]+)) = type (.*)$', l)
                if m: self.types[m[1]] = m[2].strip(); continue
                m = re.match(r'@("[^"]+"|[\w.$]+) = .*?(?:constant|global) (.*)$', l)
                if m: self.globals[m[1]] = m[2]; continue
                if l.startswith('define '):
                    m = re.search(r'@("[^"]+"|[\w.$]+)\(', l); i = m.end(); d = 1; j = i
                    while d: d += {'(': 1, ')': -1}.get(l[j], 0); j += 1
                    head = re.sub(r'^define\s+((linkonce_odr|dso_local|internal|available_externally|hidden|weak_odr)\s+)*', '', l[:m.start()]); head = ATTRS.sub('', head).strip()
                    ps = [type_and_val(x) for x in split_top(l[i:j - 1]) if x != '...']
                    f = Func(m[1], head, ps); bb = None
                continue
            if l.startswith('}'): self.funcs[f.name] = f; f = None; continue
            m = re.match(r'("[^"]+"|[\w.$-]+):', l)
            if m: bb = '%' + m[1]; f.blocks[bb] = []; f.order.append(bb); continue
            l = l.strip()
            if not l or l.startswith(';'): continue
            if bb is None: bb = '%entry0'; f.blocks[bb] = []; f.order.append(bb)
            l = re.sub(r',? ![\w.]+( !\d+|!\{[^}]*\})?(?=,|$|\s*$)', '', l); l = re.sub(r', !\w[\w.]* !\d+', '', l)
            f.blocks[bb].append(self.inst(l))
    def inst(self, l):
        t = l; res = None
        m = re.match(rf'({NAME}) = (.*)$', l)
        if m: res, l = m[1], m[2]
        l = re.sub(r'^(tail|musttail|notail) ', '', l)
        op, _, rest = l.partition(' ')
        if op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor'):
            fl = []
            while True:
                m = re.match(r'(nuw|nsw|exact|disjoint)\s+', rest)
                if not m: break
                fl.append(m[1]); rest = rest[m.end():]
            a = split_top(rest); ty, x = type_and_val(a[0]); return Inst(res, op, (ty, x, a[1], fl), t)
        if op == 'icmp':
            p, _, r = rest.partition(' '); a = split_top(r); ty, x = type_and_val(a[0]); return Inst(res, op, (p, ty, x, a[1]), t)
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc'):
            rest = re.sub(r'^(nneg|nuw|nsw)\s+', '', rest)
            if op == 'freeze': ty, x = type_and_val(rest); return Inst(res, op, (ty, x, ty), t)
            m = re.match(r'(.*) to (.*)$', rest); ty, x = type_and_val(m[1]); return Inst(res, op, (ty, x, m[2].strip()), t)
        if op == 'select':
            a = split_top(rest); c = type_and_val(a[0]); x = type_and_val(a[1]); y = type_and_val(a[2]); return Inst(res, op, (c[1], x[0], x[1], y[1]), t)
        if op == 'phi':
            m = re.match(r'(.*?)\s+(\[ .*)$', rest, re.S)
            if rest.startswith(('{', '[')) : raise Unsupported('aggregate phi')
            inc = [split_top(x[1:-1].strip()) for x in split_top(m[2])]; return Inst(res, op, (m[1], [(v, b) for v, b in inc]), t)
        if op == 'load':
            rest = re.sub(r'^volatile ', '', rest); a = split_top(rest); p = type_and_val(a[1]); return Inst(res, op, (a[0], p[1]), t)
        if op == 'store':
            rest = re.sub(r'^volatile ', '', rest); a = split_top(rest); v = type_and_val(a[0]); p = type_and_val(a[1]); return Inst(res, op, (v[0], v[1], p[1]), t)
        if op == 'getelementptr':
            rest = re.sub(r'^(inbounds|nuw|nusw) ', '', rest); a = split_top(rest); p = type_and_val(a[1]); return Inst(res, op, (a[0], p[1], [type_and_val(x) for x in a[2:]]), t)
        if op == 'alloca':
            a = split_top(rest); n = None
            if len(a) > 1 and not a[1].startswith('align'): n = type_and_val(a[1])
            return Inst(res, op, (a[0], n), t)
        if op == 'br':
            a = split_top(rest)
            if len(a) == 1: return Inst(None, 'br', (None, type_and_val(a[0])[1], None), t)
            return Inst(None, 'br', (type_and_val(a[0])[1], type_and_val(a[1])[1], type_and_val(a[2])[1]), t)
        if op == 'switch':
            m = re.match(r'(.*?), label (\S+) \[(.*)\]$', rest, re.S); ty, v = type_and_val(m[1]); cs = re.findall(r'i\d+ (-?\d+), label (%(?:"[^"]+"|[\w.$-]+))', m[3])
            return Inst(None, 'switch', (ty, v, m[2], [(int(c), b) for c, b in cs]), t)
        if op == 'ret': return Inst(None, 'ret', None if rest == 'void' else type_and_val(rest), t)
        if op == 'unreachable': return Inst(None, op, None, t)
        if op == 'call':
            m = re.search(r'@("[^"]+"|[\w.$]+)\(', rest)
            if not m: raise Unsupported('indirect call ' + t)
            i = m.end(); d = 1; j = i
            while d: d += {'(': 1, ')': -1}.get(rest[j], 0); j += 1
            rt = ATTRS.sub('', rest[:m.start()]).strip(); rt = rt.split('(')[0].strip()
            return Inst(res, 'call', (rt, m[1], [type_and_val(x) for x in split_top(rest[i:j - 1]) if not x.startswith('metadata')]), t)
        if op in ('extractvalue',):
            a = split_top(rest); ty, v = type_and_val(a[0]); return Inst(res, op, (ty, v, [int(x) for x in a[1:]]), t)
        if op == 'insertvalue':
            a = split_top(rest); ty, v = type_and_val(a[0]); e = type_and_val(a[1]); return Inst(res, op, (ty, v, e, [int(x) for x in a[2:]]), t)
        return Inst(res, 'unsupported', op, t)
    # ---- layout
    def size_align(self, ty):
        ty = ty.strip()
        if ty == 'ptr': return 8, 8
        m = re.match(r'i(\d+)$', ty)
        if m: n = (int(m[1]) + 7) // 8; return n, n
        if ty == 'float': return 4, 4
        if ty == 'double': return 8, 8
        if ty.startswith('['):
            n, _, e = ty[1:-1].strip().partition(' x '); s, a = self.size_align(e); return int(n) * s, a
        if ty.startswith('<{'):
            return sum(self.size_align(x)[0] for x in split_top(ty[2:-2])), 1
        if ty.startswith('{'):
            o = 0; ma = 1
            for x in split_top(ty[1:-1]):
                s, a = self.size_align(x); o = (o + a - 1) // a * a + s; ma = max(ma, a)
            return (o + ma - 1) // ma * ma, ma
        if ty in self.types: return self.size_align(self.types[ty])
        raise Unsupported('type ' + ty)
    def fields(self, ty):
        while ty in self.types: ty = self.types[ty]
        packed = ty.startswith('<{'); fs = split_top(ty[2:-2] if packed else ty[1:-1]); o = 0; r = []
        for x in fs:
            s, a = self.size_align(x)
            if not packed: o = (o + a - 1) // a * a
            r.append((o, x)); o += s
        return r
