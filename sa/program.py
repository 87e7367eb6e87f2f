"""Builds /repo's MIR (no execution of ruruby), parses it and offers the resolved program model."""
from functools import lru_cache
import os, re, sys, time, glob, json, hashlib, pickle, subprocess, fcntl, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mir
from mir import Place, Op, split_top
import items
import thir

REPO = os.environ.get('RURUBY_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.environ.get('RURUBY_WORK') or os.path.join(VERIF, '.work')
CRATES = {'ruruby': 'ruruby', 'ruruby_common': 'ruruby-common', 'ruruby_parse': 'ruruby-parse'}

class AnalysisError(Exception):
    """the analysis cannot decide (missing anchor, unexpected shape): exit 2, never silence"""

def source_files():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('target', '.git', '.work'))
        for f in sorted(files):
            if f.endswith(('.rs', '.toml', '.lock')) or f == 'rust-toolchain':
                out.append(os.path.join(root, f))
    return out

def tree_hash():
    h = hashlib.sha256()
    for p in source_files():
        h.update(os.path.relpath(p, REPO).encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read() + b'\0')
    here = os.path.dirname(os.path.abspath(__file__))
    for p in ('mir.py', 'program.py', 'items.py', 'thir.py', 'rustc_wrapper.sh'):
        with open(os.path.join(here, p), 'rb') as f:
            h.update(f.read())
    return h.hexdigest()

def build_env():
    env = dict(os.environ)
    try:
        out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], capture_output=True, text=True).stdout
        for kv in out.split('\0'):
            if '=' in kv:
                k, v = kv.split('=', 1)
                env[k] = v
    except OSError:
        pass
    env.update({'CARGO_TARGET_DIR': os.path.join(WORK, 'target'),
                'RUSTC_WORKSPACE_WRAPPER': os.path.join(VERIF, 'sa', 'rustc_wrapper.sh'),
                'RUSTFLAGS': '-Zalways-encode-mir', 'CARGO_INCREMENTAL': '0', 'CARGO_PROFILE_DEV_DEBUG': '0',
                # no debug_assert!: the rules must hold in optimised builds; overflow checks stay visible as CheckedX
                'CARGO_PROFILE_DEV_DEBUG_ASSERTIONS': 'false', 'CARGO_PROFILE_DEV_OVERFLOW_CHECKS': 'true',
                'RUSTC_WRAPPER': '', 'CARGO_NET_OFFLINE': 'true', 'CARGO_TERM_COLOR': 'never'})
    env.setdefault('RUSTUP_TOOLCHAIN', 'nightly-2023-12-28')
    return env

def build_mir():
    os.makedirs(os.path.join(WORK, 'target'), exist_ok=True)
    for d in ('debug/.fingerprint', ):
        for p in glob.glob(os.path.join(WORK, 'target', d, 'ruruby*')):
            shutil.rmtree(p, ignore_errors=True)
    for p in glob.glob(os.path.join(WORK, 'target/debug/deps/ruruby*.mir')) + glob.glob(os.path.join(WORK, 'target/thir-*.txt')):
        os.unlink(p)
    t = time.time()
    r = subprocess.run(['cargo', 'check', '--offline', '--locked', '-p', 'ruruby', '--lib'], cwd=REPO, env=build_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise AnalysisError('MIR build of %s failed:\n%s' % (REPO, r.stdout[-4000:]))
    files = {}
    for c in CRATES:
        if not os.path.exists(os.path.join(WORK, 'target', 'thir-%s.txt' % c)):
            raise AnalysisError('no THIR dump for crate %s' % c)
    for c in CRATES:
        m = [p for p in glob.glob(os.path.join(WORK, 'target/debug/deps/%s-*.mir' % c))]
        if len(m) != 1 or os.path.getmtime(m[0]) < t - 2:
            raise AnalysisError('no fresh MIR for crate %s: %r' % (c, m))
        files[c] = m[0]
    return files

# ------------------------------------------------------------------ type helpers
def strip_ref(t):
    t = t.strip()
    while True:
        m = re.match(r"(&(?:'[\w]+ )?(?:mut )?|\*mut |\*const |dyn |impl )", t)
        if not m:
            return t
        t = t[m.end():].strip()

@lru_cache(maxsize=None)
def drop_generics(p):
    out, d = [], 0
    for i, c in enumerate(p):
        if c == '<':
            d += 1
        elif c == '>' and p[i - 1] not in '-=':
            d -= 1
        elif d == 0:
            out.append(c)
    return ''.join(out)

@lru_cache(maxsize=None)
def simple(t):
    """last path segment of a type without references and generics"""
    t = strip_ref(t)
    if t.startswith('<'):
        m = split_qself(t)
        if m:
            return simple(m[0])
    if 'Annot<' in t:
        m = re.search(r'Annot<(?:\w+::)*(Node|Token)Kind>$', t)
        if m:
            return m.group(1)
    t = drop_generics(t).rstrip(':')
    return t.split('::')[-1].strip()

def generic_args(t):
    t = strip_ref(t)
    i = t.find('<')
    if i < 0 or not t.endswith('>'):
        return []
    return split_top(t[i + 1:-1])

@lru_cache(maxsize=None)
def split_qself(p):
    """'<T as Tr>::rest' -> (T, Tr, rest)   '<T>::rest' -> (T, None, rest)"""
    assert p[0] == '<'
    d = 0
    for i, c in enumerate(p):
        if c == '<':
            d += 1
        elif c == '>' and p[i - 1] not in '-=':
            d -= 1
            if d == 0:
                break
    inner, rest = p[1:i], p[i + 1:].lstrip(':')
    d = 0
    for j, c in enumerate(inner):
        if c in '<({[':
            d += 1
        elif c in ')}]' or (c == '>' and inner[j - 1] not in '-='):
            d -= 1
        elif d == 0 and inner.startswith(' as ', j):
            return inner[:j], inner[j + 4:], rest
    return inner, None, rest

def path_segments(p):
    """top level '::' separated segments"""
    out, d, cur, i = [], 0, 0, 0
    while i < len(p):
        c = p[i]
        if c in '<({[':
            d += 1
        elif c in ')}]' or (c == '>' and p[i - 1] not in '-='):
            d -= 1
        elif d == 0 and p.startswith('::', i):
            out.append(p[cur:i])
            i += 2
            cur = i
            continue
        i += 1
    out.append(p[cur:])
    return [s for s in out if s]

CLOSURE_RE = re.compile(r'\{closure@([^:}]+\.rs:\d+:\d+: \d+:\d+)\}')
IMPL_AT = re.compile(r'<impl at ([^:]+):(\d+):(\d+): (\d+):(\d+)>')

class Program:
    def __init__(self, files):
        self.fns = []
        self.by_key = {}
        self.by_simple = {}      # (Type, Trait|None, name) -> [Fn];  (None, None, name) free fns
        self.by_closure = {}
        self.consts = {}
        self._src = {}
        for crate, p in files.items():
            for f in mir.parse_file(p, crate):
                self._name(f)
                self.fns.append(f)
        self.unnamed = self._name_consts(files)
        for f in self.fns:
            if f.kind == 'const':
                self.consts[(f.crate, f.header)] = f
        self.items = items.parse_tree([os.path.join(REPO, d, 'src') for d in CRATES.values()])

    # ---- source access
    def src(self, rel):
        if rel not in self._src:
            with open(os.path.join(REPO, rel), encoding='utf-8') as f:
                self._src[rel] = f.read().split('\n')
        return self._src[rel]
    def _text(self, f, l1, c1, l2, c2):
        ls = self.src(f)
        if l1 == l2:
            return ls[l1 - 1][c1 - 1:c2 - 1]
        return '\n'.join([ls[l1 - 1][c1 - 1:]] + ls[l1:l2 - 1] + [ls[l2 - 1][:c2 - 1]])

    # ---- naming
    def _name(self, f):
        h = f.header
        segs = path_segments(h)
        f.self_type = f.trait = None
        m = IMPL_AT.search(h)
        if m:
            k = max(i for i, s in enumerate(segs) if s.startswith('<impl at'))
            m = IMPL_AT.search(segs[k])
            t = self._text(m.group(1), *[int(x) for x in m.groups()[1:]])
            trait = st = None
            mm = re.match(r'(?:unsafe\s+)?impl\b', t)
            if mm:
                rest = t[mm.end():].strip()
                if rest.startswith('<'):
                    d = 0
                    for i, c in enumerate(rest):
                        d += c == '<'
                        d -= c == '>' and rest[i - 1] not in '-='
                        if d == 0:
                            break
                    rest = rest[i + 1:].strip()
                rest = rest.split(' where ')[0]
                ps = re.split(r'\s+for\s+', rest, 1)
                if len(ps) == 2:
                    trait, st = ps
                else:
                    st = ps[0]
            else:
                trait = t
            if st is None or '$' in st:
                st = f.types.get(1, f.ret) if f.args else (f.ret or '?')
                if (f.kind == 'promoted' or not f.args) and simple(st) in ('', '?'):
                    st = '?'
            if trait is not None and '$' in trait:
                trait = 'macro_trait'
            f.self_type = simple(st) or '?'
            f.trait = simple(trait) if trait else None
            tail = '::'.join(segs[k + 1:])
            base = '<%s as %s>' % (f.self_type, f.trait) if f.trait else f.self_type
            f.key = base + '::' + tail
            f.mod = '::'.join(segs[:k])
            f.name = '::'.join(x for x in segs[k + 1:] if not x.startswith('{')).split('#')[0]
        else:
            f.key = h
            f.mod = '::'.join(segs[:-1])
            f.name = segs[-1]
        f.is_closure = '{closure#' in h
        if f.is_closure and f.args:
            mm = CLOSURE_RE.search(f.types[1])
            if mm:
                self.by_closure.setdefault(mm.group(1), []).append(f)
        if f.key in self.by_key:
            i = 2
            while '%s~%d' % (f.key, i) in self.by_key:
                i += 1
            f.key = '%s~%d' % (f.key, i)
        self.by_key[f.key] = f
        if f.kind == 'const' or f.kind == 'static':
            self.consts.setdefault((f.crate, f.header), f)
        if f.kind == 'fn' and not f.is_closure:
            if f.self_type:
                l = self.by_simple.setdefault((f.self_type, f.name), [])
                sig = [f.types[a] for a in f.args] + [f.ret]
                # a const fn is printed twice (runtime and const-eval form)
                if not any(g.header == f.header and [g.types[a] for a in g.args] + [g.ret] == sig for g in l):
                    l.append(f)
            else:
                self.by_simple.setdefault((None, f.name), []).append(f)
            if f.name and len(segs) >= 2 and not IMPL_AT.search(h):
                self.by_simple.setdefault(('path', h), []).append(f)

    def _name_consts(self, files):
        unnamed = 0
        for crate, path in files.items():
            tp = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(path))), 'thir-%s.txt' % crate)
            names = thir.named_consts(tp)
            os.unlink(tp)
            scal = re.compile(r'^([iu](8|16|32|64|128|size)|bool|char)$')
            groups = {}
            for f in self.fns:
                if f.crate != crate:
                    continue
                t = thir.tail(f.header.split('#promoted')[0])
                for b in sorted(f.blocks):
                    blk = f.blocks[b]
                    for s in blk.stmts:
                        if s.kind == 'assign':
                            for o in s.rv.ops:
                                if o.kind == 'const' and o.text == '_' and o.path is None:
                                    groups.setdefault((t, s.span), []).append(o)
                    tm = blk.term
                    if tm.kind == 'call':
                        for o in tm.args:
                            if o.kind == 'const' and o.text == '_' and o.path is None:
                                groups.setdefault((t, tm.span), []).append(o)
            for k, ops in groups.items():
                c = [n for n, ty in names.get(k, []) if scal.match(ty)]
                if len(c) == len(ops):
                    for o, n in zip(ops, c):
                        o.path = n
                elif c and len(set(c)) == 1:
                    for o in ops:
                        o.path = c[0]
                elif c and len(ops) % len(c) == 0:      # a body printed more than once (const fn, macro instances)
                    for i, o in enumerate(ops):
                        o.path = c[i % len(c)]
                else:
                    unnamed += len(ops)
        return unnamed

    # ---- callee resolution
    def resolve(self, callee, crate=None):
        """list of workspace functions a callee path may denote"""
        if callee is None:
            return []
        key = (callee, crate)
        c = self._rcache.get(key) if hasattr(self, '_rcache') else None
        if c is not None:
            return c
        if not hasattr(self, '_rcache'):
            self._rcache = {}
        r = self._resolve(callee, crate)
        self._rcache[key] = r
        return r

    def _resolve(self, callee, crate):
        p = callee.strip()
        if p.startswith('<'):
            t, tr, rest = split_qself(p)
            parts = [x for x in path_segments(rest)] if rest else ['']
            name = drop_generics(parts[0])
            nested = '::'.join(drop_generics(x) for x in parts if not x.startswith('<') and not x.startswith('{'))
            if nested != name and (simple(t), nested) in self.by_simple:
                name = nested
            c = self.by_simple.get((simple(t), name), [])
            if tr is not None:
                c = [f for f in c if f.trait in (simple(tr), 'macro_trait')]
                if not c:      # default method of a workspace trait
                    full = drop_generics(tr) + '::' + name
                    for cr in CRATES:
                        if full.startswith(cr + '::'):
                            full, crate = full[len(cr) + 2:], cr
                    return [f for f in self.by_simple.get(('path', full), []) if crate is None or f.crate == crate]
            else:
                c = [f for f in c if f.trait is None]
            return self._narrow(c, t)
        segs = [s for s in path_segments(p)]
        segs = [s for s in segs if not (s.startswith('<') and not s.startswith('<impl '))]  # turbofish
        if len(segs) > 1 and segs[-1].startswith('<impl '):
            segs.pop()
        if not segs:
            return []
        name = drop_generics(segs[-1])
        # mod::<impl Type>::name  (inherent impl in another module than the type)
        for k, s in enumerate(segs):
            if s.startswith('<impl ') and k + 1 < len(segs):
                t = s[6:-1]
                name = '::'.join(drop_generics(x) for x in segs[k + 1:] if not x.startswith('{'))
                if ' for ' in t:
                    tr, t = t.split(' for ', 1)
                    c = [f for f in self.by_simple.get((simple(t), name), []) if f.trait == simple(tr)]
                else:
                    c = [f for f in self.by_simple.get((simple(t), name), []) if f.trait is None]
                return self._narrow(c, t)
        if segs[0] in ('std', 'core') or (segs[0] == 'alloc' and len(segs) > 1 and segs[1] in ('vec', 'slice', 'string', 'str', 'boxed', 'fmt', 'rc', 'collections', 'borrow', 'alloc', 'raw_vec', 'sync')):
            return []
        if len(segs) >= 2:
            ty = drop_generics(segs[-2])
            c = [f for f in self.by_simple.get((ty, name), []) if f.trait is None]
            if c:
                return self._narrow(c, '::'.join(segs[:-1]))
        if len(segs) >= 3:      # fn nested in an inherent method
            c = [f for f in self.by_simple.get((drop_generics(segs[-3]), drop_generics(segs[-2]) + '::' + name), []) if f.trait is None]
            if c:
                return self._narrow(c, '::'.join(segs[:-2]))
        full = '::'.join(drop_generics(s) for s in segs)
        for cr in CRATES:
            if full.startswith(cr + '::'):
                full = full[len(cr) + 2:]
                crate = cr
        c = [f for f in self.by_simple.get(('path', full), []) if crate is None or f.crate == crate]
        if c:
            return c
        c = [f for f in self.by_simple.get((None, name), [])]
        c = [f for f in c if f.header.endswith(full) or full.endswith(f.header)]
        return c

    def _narrow(self, c, t):
        if len(c) <= 1:
            return c
        mod = '::'.join(path_segments(drop_generics(strip_ref(t)))[:-1])
        d = [f for f in c if mod and (f.mod.startswith(mod) or mod.endswith(f.mod))]
        return d or c

    def closure(self, text):
        """closure functions mentioned in a type / callee text"""
        out = []
        for m in CLOSURE_RE.finditer(text or ''):
            out += self.by_closure.get(m.group(1), [])
        return out

    def callees(self, f, t):
        """workspace functions that may execute during call terminator t (direct + closures handed over)"""
        r = list(self.resolve(t.func, f.crate)) if t.func else []
        if t.func:
            r += [c for c in self.closure(t.func) if c not in r]
        for a in t.args:
            ty = f.types.get(a.local) if a.place is not None else a.text
            if ty and '{closure@' in ty:
                r += [c for c in self.closure(ty) if c not in r]
        return r

    def fn(self, key, required=True):
        f = self.by_key.get(key)
        if f is None and required:
            raise AnalysisError('anchor not found: function %s' % key)
        return f
    def find(self, type_, name, trait=False):
        c = self.by_simple.get((type_, name), [])
        if trait is not False:
            c = [f for f in c if f.trait == trait]
        return c
    def __getstate__(self):
        d = dict(self.__dict__)
        d.pop('_rcache', None)
        return d

def load(verbose=True):
    os.makedirs(WORK, exist_ok=True)
    t = time.time()
    with open(os.path.join(WORK, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = tree_hash()
        pk = os.path.join(WORK, 'prog-%s.pickle' % h[:24])
        if os.path.exists(pk):
            try:
                with open(pk, 'rb') as f:
                    import gc
                    gc.disable()
                    p = pickle.load(f)
                    gc.enable()
                p.tree = h
                if verbose:
                    print('# program model for tree %s from cache (%.1fs)' % (h[:12], time.time() - t), flush=True)
                return p
            except Exception:
                os.unlink(pk)
        files = build_mir()
        tb = time.time() - t
        import gc
        gc.disable()
        p = Program(files)
        gc.enable()
        p.tree = h
        if tree_hash() != h:
            raise AnalysisError('source tree changed during the build')
        for old in glob.glob(os.path.join(WORK, 'prog-*.pickle')):
            os.unlink(old)
        tmp = pk + '.tmp'
        sys.setrecursionlimit(100000)
        with open(tmp, 'wb') as f:
            pickle.dump(p, f, protocol=4)
        os.rename(tmp, pk)
        if verbose:
            print('# MIR built in %.1fs, %d functions parsed in %.1fs (tree %s)' % (tb, sum(f.kind == 'fn' for f in p.fns), time.time() - t - tb, h[:12]), flush=True)
    return p
