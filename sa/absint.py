"""Abstract interpreter over MIR. Integers are affine forms over symbols with interval bounds, Ruby values carry the set of kinds they may have,
everything else is a term recording where it came from. Branches that the abstract state does not decide are taken both ways (refining the kinds,
bounds and facts they test); calls of workspace functions are interpreted, calls of anything else become terms. No solver is involved."""
import re
from functools import lru_cache
from program import AnalysisError, generic_args, simple, drop_generics, split_qself, path_segments
from flow import const_value, find_const

IMM = frozenset(['FIX', 'FLO', 'NIL', 'TRUE', 'FALSE', 'SYM', 'UNINIT'])
RANGE = {'i8': (-2**7, 2**7 - 1), 'i16': (-2**15, 2**15 - 1), 'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, 2**63 - 1), 'i128': (-2**127, 2**127 - 1),
         'isize': (-2**63, 2**63 - 1), 'u8': (0, 2**8 - 1), 'u16': (0, 2**16 - 1), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1), 'usize': (0, 2**64 - 1), 'u128': (0, 2**128 - 1)}
FIXR = (-2**62, 2**62 - 1)
INF = float('inf')
NEG = {'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt', 'eq': 'ne', 'ne': 'eq'}
VIDX = {'Ok': 0, 'Err': 1, 'None': 0, 'Some': 1, 'Continue': 0, 'Break': 1, 'Less': -1, 'Equal': 0, 'Greater': 1}

class Limit(Exception):
    pass

# ------------------------------------------------------------------ affine forms
def aff(c, terms=()):
    return (c, tuple(sorted(((s, k) for s, k in terms if k), key=repr)))
def asym(s):
    return (0, ((s, 1),))
def aadd(a, b, k=1):
    d = dict(a[1])
    for s, c in b[1]:
        d[s] = d.get(s, 0) + k * c
    return aff(a[0] + k * b[0], d.items())
def ascale(a, k):
    return aff(a[0] * k, [(s, c * k) for s, c in a[1]])
def aconst(a):
    return a[0] if not a[1] else None
def num(n):
    return ('int', (n, ()))

class St:
    """abstract machine state on one path"""
    __slots__ = ('mem', 'kinds', 'bounds', 'facts', 'guards', 'effects', 'stack', 'fresh')
    def __init__(self):
        self.mem, self.kinds, self.bounds, self.facts, self.guards, self.effects, self.stack, self.fresh = {}, {}, {}, {}, (), (), (), 0
    def copy(self):
        s = St()
        s.mem, s.kinds, s.bounds, s.facts = dict(self.mem), dict(self.kinds), dict(self.bounds), dict(self.facts)
        s.guards, s.effects, s.stack, s.fresh = self.guards, self.effects, self.stack, self.fresh
        return s
    def eff(self, *e):
        self.effects = self.effects + (e,)
    def guard(self, *g):
        self.guards = self.guards + (g,)

class Interp:
    MAXPATHS = 4000
    MAXDEPTH = 24
    relational = False
    widen = False          # generalise the locals a loop changes at its head instead of following it for a few turns
    LENMAX = 2**63 - 1
    def __init__(self, p):
        self._loopinfo = {}
        self.p = p
        self.act = 0
        self.paths = 0
        self.functions = set()
        self.opaque_fns = set()
        self._loops = {}
        self._kinds()
        self.enums = {}
        for n, its in p.items.items():
            for it in its:
                if it.kind == 'enum':
                    self.enums[n] = [v for v, _ in it.variants]
        for t in ('Option', 'Result'):
            pass

    def _kinds(self):
        self.kind_name = {}
        for f in self.p.fns:
            if f.kind == 'const' and f.self_type == 'ObjKind':
                v = const_value_of(self.p, f)
                if isinstance(v, int):
                    self.kind_name[v] = f.key.split('::')[-1]
        if len(self.kind_name) < 15:
            raise AnalysisError('object kind constants not found')
        self.heap = frozenset(self.kind_name.values()) - {'INVALID'}

    # ---------------------------------------------------------------- hooks for clients
    def inline(self, g, depth):
        return True
    def hook(self, st, f, t, g, args, where):
        """-> None, or list of (state, value or ('panic', why))"""
        return None
    def event(self, st, kind, detail, f, span):
        st.eff('event', kind, detail, f.key, span)
    def opaque_call(self, st, f, t, name, args):
        """effect of a call that is not interpreted"""

    # ---------------------------------------------------------------- bounds
    @staticmethod
    def norm(a):
        """a == g*d + c with d a primitive direction -> (g, d, c)"""
        from math import gcd
        g = 0
        for _, c in a[1]:
            g = gcd(g, abs(c))
        if a[1][0][1] < 0:
            g = -g
        return g, (0, tuple((s, c // g) for s, c in a[1])), a[0]
    def rng(self, st, a, depth=2):
        lo, hi = self.rng0(st, a)
        if depth and len(a[1]) >= 2 and self.relational:
            # one known relation between symbols may bound the rest
            syms = {s for s, c in a[1]}
            for d in [k for k in st.bounds if isinstance(k, tuple) and len(k) == 2 and k[0] == 0 and isinstance(k[1], tuple) and len(k[1]) > 1 and not syms.isdisjoint([t[0] for t in k[1] if isinstance(t, tuple) and len(t) == 2])]:
                b = st.bounds[d]
                cs = dict(d[1])
                for s, c in a[1]:
                    if s in cs and c % cs[s] == 0:
                        k = c // cs[s]
                        l, h = self.rng(st, aadd(a, d, -k), depth - 1)
                        x, y = (k * b[0], k * b[1]) if k > 0 else (k * b[1], k * b[0])
                        lo, hi = max(lo, l + x), min(hi, h + y)
        return lo, hi
    def rng0(self, st, a):
        lo = hi = a[0]
        for s, c in a[1]:
            l, h = self.symrng(st, s)
            if c > 0:
                lo, hi = lo + c * l, hi + c * h
            else:
                lo, hi = lo + c * h, hi + c * l
        if len(a[1]) > 1:
            g, d, c = self.norm(a)
            b = st.bounds.get(d)
            if b:
                x, y = (g * b[0] + c, g * b[1] + c) if g > 0 else (g * b[1] + c, g * b[0] + c)
                lo, hi = max(lo, x), min(hi, y)
        return lo, hi
    def symrng(self, st, s):
        b = st.bounds.get(s)
        if b:
            return b
        return (-INF, INF)
    def setrng(self, st, a, lo, hi):
        """assume lo <= a <= hi; False: infeasible"""
        l, h = self.rng(st, a)
        lo, hi = max(lo, l), min(hi, h)
        if lo > hi:
            return False
        if a[1]:
            g, d, c = self.norm(a)
            if g > 0:
                x, y = lo - c, hi - c
            else:
                x, y = c - hi, c - lo
            k = abs(g)
            x = x if x == -INF else -((-x) // k)
            y = y if y == INF else y // k
            if x > y:
                return False
            if len(d[1]) == 1:
                s = d[1][0][0]
                if d[1][0][1] < 0:
                    x, y = -y, -x
                o = self.symrng(st, s)
                x, y = max(x, o[0]), min(y, o[1])
                while x <= y and x != -INF and self.excluded(st, s, x):
                    x += 1
                while x <= y and y != INF and self.excluded(st, s, y):
                    y -= 1
                if x > y:
                    return False
                st.bounds[s] = (x, y)
            else:
                st.bounds[d] = (x, y)
        return True
    def outside(self, st, e, r):
        """assume that e exceeds the range r"""
        lo, hi = self.rng(st, e)
        if lo >= r[0]:
            return self.setrng(st, e, r[1] + 1, INF)
        if hi <= r[1]:
            return self.setrng(st, e, -INF, r[0] - 1)
        return True
    def excluded(self, st, s, v):
        return st.facts.get(('b', ('ieq', (-v, ((s, 1),))))) is False or st.facts.get(('b', ('ieq', (v, ((s, -1),))))) is False

    # ---------------------------------------------------------------- value coercions
    def as_int(self, st, v, ty):
        """affine form of value v read as machine type ty"""
        if v[0] == 'int':
            return v[1]
        if v[0] == 'bits':
            lo, hi = self.rng(st, v[1])
            r = RANGE.get(ty)
            if r and r[0] <= lo and hi <= r[1]:
                return v[1]
            s = ('wrap', ty, v[1])
            st.bounds.setdefault(s, r)
            return asym(s)
        if v[0] == 'bool' and v[1] in (True, False):
            return (int(v[1]), ())
        if v[0] == 'kindof':
            s = ('kind', v[1])
        else:
            s = term(v)
        if ty in RANGE and s not in st.bounds:
            st.bounds[s] = RANGE[ty]
        return asym(s)
    def fterm(self, v):
        if v[0] == 'flt':
            return v[1]
        return term(v)

    # ---------------------------------------------------------------- memory
    def load(self, st, cell, path=()):
        v = st.mem.get(cell)
        if v is None:
            v = ('o', ('local', cell[1]))
        return self.proj(st, v, path)
    def proj(self, st, v, path):
        for x in path:
            v = self.proj1(st, v, x)
        return v
    def proj1(self, st, v, x):
        if x == '*':
            if v[0] == 'ref':
                return self.load(st, v[1], v[2])
            if v[0] in ('o',):
                t = v[1]
                if t[0] == '&':
                    return ('o', t[1])
                m = st.facts.get(('mem', ('*', t)))
                return m if m is not None else ('o', ('*', t))
            return v
        if v[0] == 'ref' and x[0] == 'f':
            v = self.load(st, v[1], v[2])     # box-like transparent access
        if x[0] == 'f':
            if v[0] == 'agg':
                return v[3][x[1]] if x[1] < len(v[3]) else ('o', ('undef',))
            if v[0] == 'o':
                k = ('fld', v[1], x[1])
                m = st.facts.get(('mem', k))
                if m is not None:
                    return m
                return self.typed(st, k, x[2])
            if v[0] in ('V', 'Vi', 'Vf', 'Vb', 'Vn'):
                return ('raw', v)
            return ('o', ('fld', term(v), x[1]))
        if x[0] == 'as':
            return v if v[0] == 'agg' else ('o', ('as', term(v), x[1])) if v[0] in ('o',) else v
        if x[0] == 'i':
            return ('o', ('[]', term(v), x[1] if not isinstance(x[1], tuple) else x[1]))
        return ('o', ('[]', term(v), x[1]))
    def typed(self, st, t, ty):
        """opaque term t of Rust type ty as a value"""
        s = simple(ty or '') if ty else ''
        if s == 'Value' and not (ty or '').startswith('&'):
            if t not in st.kinds:
                st.kinds[t] = self.unknown_kinds(st, t)
            return ('V', t)
        if ty in RANGE:
            if t not in st.bounds:
                st.bounds[t] = RANGE[ty]
            return ('int', asym(t))
        if ty == 'bool':
            return ('bool', t)
        if ty == 'f64':
            return ('flt', t)
        if s == 'BigInt':
            return ('big', asym(t))
        if re.match(r"&('\w+ )?(mut )?", ty or '') and s in ('Value', 'BigInt') and '[' not in ty:
            return self.typed(st, ('*', t), re.sub(r"^&('\w+ )?(mut )?", '', ty))
        return ('o', t)
    def unknown_kinds(self, st, t):
        return IMM | self.heap
    def resolve_place(self, st, a, pl):
        """-> (cell, path) or None with opaque term"""
        cell, path = (a, pl.local), []
        for x in pl.proj:
            if x == '*':
                v = self.load(st, cell, tuple(path))
                if v[0] == 'ref':
                    cell, path = v[1], list(v[2])
                    continue
                if v[0] == 'o':
                    return None, (('*', v[1]) if v[1][0] != '&' else v[1][1])
                path.append('*')
            elif x[0] == 'i':
                iv = self.load(st, (a, x[1]))
                path.append(('i', iv[1] if iv[0] == 'int' else term(iv)))
            else:
                path.append(x)
        return cell, tuple(path)
    def read(self, st, a, pl):
        v = self.load(st, (a, pl.local))
        for x in pl.proj:
            if x != '*' and x[0] == 'i':
                iv = self.load(st, (a, x[1]))
                x = ('i', iv[1] if iv[0] == 'int' else term(iv))
            v = self.proj1(st, v, x)
        return v
    def write(self, st, a, pl, v, f=None):
        if not pl.proj:
            st.mem[(a, pl.local)] = v
            return
        cell, path = self.resolve_place(st, a, pl)
        if cell is None:
            # through an opaque pointer
            t = path
            rest = self.after_deref(pl)
            for x in rest:
                t = ('fld', t, x[1]) if x != '*' and x[0] == 'f' else ('[]', t, x[1]) if x != '*' and x[0] == 'i' else t
            st.facts[('mem', t)] = v
            st.eff('store', t, v)
            return
        old = st.mem.get(cell, ('o', ('local', cell[1])))
        st.mem[cell] = self.upd(st, old, path, v)
    def after_deref(self, pl):
        k = max(i for i, x in enumerate(pl.proj) if x == '*')
        return pl.proj[k + 1:]
    def upd(self, st, old, path, v):
        if not path:
            return v
        x = path[0]
        if x == '*' or x[0] == 'as':
            return self.upd(st, old, path[1:], v)
        if x[0] == 'f':
            if old[0] == 'agg':
                fs = list(old[3])
                while len(fs) <= x[1]:
                    fs.append(('o', ('undef',)))
                fs[x[1]] = self.upd(st, fs[x[1]], path[1:], v)
                return ('agg', old[1], old[2], tuple(fs))
            fs = [('o', ('fld', term(old), i)) for i in range(x[1] + 1)]
            fs[x[1]] = self.upd(st, fs[x[1]], path[1:], v)
            return ('agg', None, 'part', tuple(fs))
        return old
    def operand(self, st, a, f, o):
        if o.kind == 'const':
            return self.const(st, f, o)
        return self.read(st, a, o.place)
    def const(self, st, f, o):
        if o.path is None and o.text in ('true', 'false'):
            return ('bool', o.text == 'true')
        m = re.match(r'^(-?[\d.eE+-]+)_?f64$', o.text or '') if o.path is None else None
        if m:
            return ('flt', ('c', float(m.group(1))))
        if o.path is None and o.text == '()':
            return ('agg', None, 'tuple', ())
        if o.path is not None or re.match(r'^-?\d+_', o.text or ''):
            v = const_value(self.p, o, f.crate)
            if isinstance(v, int):
                return num(v)
            if o.path is not None:
                m = re.match(r'(?:core|std)::num::<impl (\w+)>::(MIN|MAX)$', o.path) or re.match(r'(?:core|std)::(\w+)::(MIN|MAX)$', o.path)
                if m and m.group(1) in RANGE:
                    return num(RANGE[m.group(1)][m.group(2) == 'MAX'])
                m = re.match(r'^core::num::\{impl#(\d+)\}::(MIN|MAX|BITS)$', o.path)
                if m:
                    ty = self.numimpl().get(int(m.group(1)))
                    if ty:
                        return num(width(ty) if m.group(2) == 'BITS' else RANGE[ty][m.group(2) == 'MAX'])
                g = self.promoted(f, o)
                if g is not None:
                    r = self.run_const(st, g)
                    if r is not None:
                        return r
                return ('o', ('const', re.sub(r'^(\w+::)*(?=\w+::\w+$)', '', o.path)))
        if (o.text or '').startswith('{closure@') or 'closure@' in (o.text or ''):
            return ('agg', None, ('closure', o.text), ())
        t = o.text or ''
        mm = re.match(r"^(?:&)?([\w:]+)$", t)
        if mm and '::' in t:
            g = find_const(self.p, t, f.crate)
            if g is not None:
                v = const_value_of(self.p, g)
                if isinstance(v, int):
                    return num(v)
            m = re.match(r'^(?:\w+::)*(\w+)::(MIN|MAX|BITS)$', t)
            if m and m.group(1) in RANGE:
                return num(width(m.group(1)) if m.group(2) == 'BITS' else RANGE[m.group(1)][m.group(2) == 'MAX'])
            return ('o', ('const', re.sub(r'^(\w+::)*(?=\w+::\w+$)', '', t)))
        return ('o', ('c', t))
    def numimpl(self):
        """which integer type the n-th inherent impl block of core::num is for; entries the program's own uses contradict are dropped"""
        r = self.p.__dict__.get('_numimpl')
        if r is None:
            r = dict(enumerate(('i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize')))
            for f in self.p.fns:
                for b, i, s in f.stmts():
                    if s.kind == 'assign' and s.rv.kind == 'use' and not s.place.proj:
                        m = re.match(r'^core::num::\{impl#(\d+)\}::(MIN|MAX)$', s.rv.ops[0].path or '')
                        if m and f.types.get(s.place.local) in RANGE and r.get(int(m.group(1))) != f.types[s.place.local]:
                            r.pop(int(m.group(1)), None)
            self.p._numimpl = r
        return r

    def promoted(self, f, o):
        if '#promoted[' in o.path or o.path.startswith('promoted'):
            for g in self.p.fns:
                if g.key == o.path or g.header == o.path:
                    return g
            return self.p.by_key.get(f.key + '#promoted[' + o.path.split('promoted[')[1])
        return None
    def run_const(self, st, g):
        try:
            outs = self.run(g, [], st.copy(), 20)
        except Limit:
            return None
        if len(outs) == 1 and outs[0][1][0] == 'ret':
            s2, o = outs[0]
            st.mem.update(s2.mem)
            return o[1]
        return None

    # ---------------------------------------------------------------- running
    def has_loop(self, f):
        r = self._loops.get(f.key)
        if r is None:
            r = False
            color = {}
            stack = [(0, iter([x for x in f.succs(0)]))]
            color[0] = 1
            while stack:
                b, it = stack[-1]
                for x in it:
                    if color.get(x, 0) == 1:
                        r = True
                        break
                    if x not in color:
                        color[x] = 1
                        stack.append((x, iter(f.succs(x))))
                        break
                else:
                    color[b] = 2
                    stack.pop()
                if r:
                    break
            self._loops[f.key] = r
        return r

    def loops(self, f):
        """loop head -> (blocks of the loop, locals changed in it)"""
        r = self._loopinfo.get(f.key)
        if r is not None:
            return r
        r = self._loopinfo[f.key] = {}
        color, stack, back = {0: 1}, [(0, iter(f.succs(0)))], []
        while stack:
            b, it = stack[-1]
            for x in it:
                if color.get(x) == 1:
                    back.append((b, x))
                elif x not in color:
                    color[x] = 1
                    stack.append((x, iter(f.succs(x))))
                    break
            else:
                color[b] = 2
                stack.pop()
        preds = {}
        for b in f.blocks:
            for x in f.succs(b):
                preds.setdefault(x, []).append(b)
        for src, head in back:
            body, w = {head}, [src]
            while w:
                x = w.pop()
                if x not in body:
                    body.add(x)
                    w += preds.get(x, [])
            ch = r.setdefault(head, (set(), set()))
            ch[0].update(body)
        borrowed = {s.rv.ops[0].place.local for b, i, s in f.stmts() if s.kind == 'assign' and s.rv.kind in ('ref', 'addr') and s.rv.ops[0].place is not None
                    and '*' not in s.rv.ops[0].place.proj and (s.rv.a == 'mut' or '*mut' in (f.types.get(s.place.local) or ''))}
        for head, (body, locs) in r.items():
            calls = False
            for b in body:
                for s in f.blocks[b].stmts:
                    if s.kind == 'assign' and '*' not in s.place.proj:
                        locs.add(s.place.local)
                t = f.blocks[b].term
                if t.kind == 'call':
                    calls = True
                    if t.dest is not None and '*' not in t.dest.proj:
                        locs.add(t.dest.local)
            if calls:
                locs |= borrowed
        return r
    def havoc(self, st, a, f, head):
        for l in self.loops(f)[head][1]:
            if (a, l) not in st.mem:
                continue
            old = st.mem[(a, l)]
            t = ('loop', a, head, l)
            ty = f.types.get(l)
            if old[0] == 'agg' and old[2] == 'Range' and len(old[3]) == 2 and old[3][0][0] == 'int':
                m = re.search(r'Range<(\w+)>', ty or '')
                if m and m.group(1) in RANGE:
                    lo, hi = self.rng(st, old[3][0][1])
                    st.bounds[t] = (lo, RANGE[m.group(1)][1])
                    st.mem[(a, l)] = ('agg', old[1], old[2], (('int', asym(t)), old[3][1]))
                    continue
            st.bounds.pop(t, None)
            st.mem[(a, l)] = self.typed(st, t, ty) if ty else ('o', t)

    def run(self, f, args, st, depth=0, start=0, stop=None, init=None, callstack=()):
        """-> [(state, outcome)], outcome ('ret', v) | ('panic', why, where) | ('stop', block)"""
        if depth > self.MAXDEPTH:
            raise Limit('depth')
        self.functions.add(f.key)
        self.act += 1
        a = self.act
        for l, v in zip(f.args, args):
            st.mem[(a, l)] = v
        for l, v in (init or {}).items():
            st.mem[(a, l)] = v
        out = []
        work = [(st, start, {})]
        while work:
            st, b, visits = work.pop()
            while True:
                if stop is not None and b in stop and visits:
                    out.append((st, ('stop', b)))
                    break
                n = visits.get(b, 0) + 1
                if n > 3:
                    self.paths += 1
                    out.append((st, ('cut', f.key)))
                    break
                visits[b] = n
                if self.widen and b in self.loops(f):
                    if n > 1:
                        self.paths += 1
                        break          # covered by the first, generalised, visit
                    self.havoc(st, a, f, b)
                blk = f.blocks[b]
                for s in blk.stmts:
                    if s.kind == 'assign':
                        self.assign(st, a, f, s)
                    elif s.kind == 'setdiscr':
                        pass
                t = blk.term
                k = t.kind
                if k == 'return':
                    v = st.mem.get((a, 0), ('agg', None, 'tuple', ()))
                    out.append((st, ('ret', v)))
                    break
                if k in ('goto', 'drop', 'asm'):
                    if not t.succ:
                        raise Limit('assembly')
                    b = t.succ[0]
                    continue
                if k in ('unreachable', 'resume'):
                    break          # the compiler proved it unreachable
                if k == 'switch':
                    nxt = self.switch(st, a, f, b, t)
                elif k == 'assert':
                    nxt = self.do_assert(st, a, f, t, out)
                elif k == 'call':
                    nxt = self.call(st, a, f, b, t, depth, callstack, out)
                else:
                    raise AnalysisError('%s: terminator %s' % (f.key, k))
                if not nxt:
                    break
                if len(out) + len(work) + len(nxt) > self.MAXPATHS:
                    raise Limit('paths in %s' % f.key)
                for s2, b2 in nxt[1:]:
                    work.append((s2, b2, dict(visits)))
                st, b = nxt[0]
        return out

    def assign(self, st, a, f, s):
        v = self.rvalue(st, a, f, s)
        self.write(st, a, s.place, v, f)

    def lty(self, f, pl):
        """type of place when it is a bare local or ends in a typed field"""
        if not pl.proj:
            return f.types.get(pl.local)
        if pl.proj[-1] != '*' and pl.proj[-1][0] == 'f':
            return pl.proj[-1][2]
        if pl.proj == ('*',):
            return re.sub(r"^&('\w+ )?(mut )?|^\*(const|mut) ", '', f.types.get(pl.local) or '')
        return None

    def opty(self, f, o):
        if o.place is not None:
            return self.lty(f, o.place)
        m = re.search(r'_([iu](?:8|16|32|64|128|size))$', o.text or '')
        return m.group(1) if m else 'bool' if o.text in ('true', 'false') else None

    def rvalue(self, st, a, f, s):
        rv = s.rv
        k = rv.kind
        if k == 'use':
            v = self.operand(st, a, f, rv.ops[0])
            if v[0] == 'o' and rv.ops[0].place is not None and not s.place.proj:
                ty = f.types.get(s.place.local)
                if simple(ty or '') in ('Value', 'BigInt') or ty in RANGE or ty in ('bool', 'f64'):
                    return self.typed(st, v[1], ty)
            return v
        if k in ('ref', 'addr', 'fake'):
            pl = rv.ops[0].place
            cell, path = self.resolve_place(st, a, pl)
            if cell is None:
                t = path
                for x in self.after_deref(pl):
                    t = ('fld', t, x[1]) if x != '*' and x[0] == 'f' else ('as', t, x[1]) if x != '*' and x[0] == 'as' else ('[]', t, repr(x))
                m = st.facts.get(('mem', t))
                if m is not None and m[0] in ('V', 'Vi', 'Vf', 'Vb', 'Vn', 'int', 'flt'):
                    return m
                ty = self.lty(f, pl)
                if ty and simple(ty) in ('Value', 'BigInt') and not ty.startswith('&') or ty in RANGE or ty == 'f64':
                    return self.typed(st, t, ty)
                return ('o', ('&', t))
            if path and path[-1] == '*':
                return self.load(st, cell, path)
            return ('ref', cell, path)
        if k == 'bin':
            return self.binop(st, a, f, s, rv)
        if k == 'un':
            v = self.operand(st, a, f, rv.ops[0])
            ty = self.opty(f, rv.ops[0])
            if rv.a == 'Not':
                if ty == 'bool' or v[0] == 'bool':
                    return ('bool', bnot(v[1] if v[0] == 'bool' else term(v)))
                return self.fit(st, aff(-1, [(x, -c) for x, c in self.as_int(st, v, ty)[1]]) if v[0] == 'int' and ty and ty[0] == 'i' and True and self.as_int(st, v, ty)[0] == 0 else ascale(aadd(self.as_int(st, v, ty), (1, ())), -1), ty, 'not') if ty and ty[0] == 'i' else ('o', ('not', term(v)))
            if ty == 'f64':
                return ('flt', ('neg', self.fterm(v)))
            return self.fit(st, ascale(self.as_int(st, v, ty), -1), ty, 'Neg')
        if k == 'cast':
            return self.cast(st, a, f, s, rv)
        if k == 'discr':
            v = self.read(st, a, rv.ops[0].place)
            if v[0] == 'ref':
                v = self.load(st, v[1], v[2])
            ty = self.place_enum(f, rv.ops[0].place)
            return self.discr(st, v, ty)
        if k == 'agg':
            ops = tuple(self.operand(st, a, f, o) for o in rv.ops)
            if rv.a == 'variant':
                segs = path_segments(rv.text)
                name = drop_generics(segs[-1]) if segs else rv.text
                en = drop_generics(segs[-2]) if len(segs) > 1 else None
                ty = simple(f.types.get(s.place.local) or '') if not s.place.proj else None
                if en is not None and segs[-1].startswith('<'):
                    en = None
                return ('agg', name, en or ty, ops)
            if rv.a == 'closure':
                return ('agg', None, ('closure', rv.text), ops)
            if rv.a == 'struct':
                segs = path_segments(rv.text[0])
                name = drop_generics(segs[-1]) if segs else None
                en = drop_generics(segs[-2]) if len(segs) > 1 else None
                if en in self.enums and name in self.enums[en]:
                    return ('agg', name, en, ops)
                if name in ('Value',) and len(ops) == 1:
                    return ('o', ('mk', name, term(ops[0])))
                return ('agg', None, name, ops)
            return ('agg', None, rv.a, ops)
        if k == 'len':
            t = ('len', term(self.read(st, a, rv.ops[0].place)))
            st.bounds.setdefault(t, (0, self.LENMAX))
            return ('int', asym(t))
        if k == 'repeat':
            return ('o', ('repeat', term(self.operand(st, a, f, rv.ops[0])), rv.a))
        return ('o', ('rv', k, rv.text if isinstance(rv.text, str) else None))

    def place_enum(self, f, pl):
        t = self.lty(f, pl)
        return simple(t or '') if t else None

    def discr(self, st, v, ty):
        if v[0] == 'agg' and v[1] is not None:
            i = self.vindex(v[1], v[2] if isinstance(v[2], str) else ty, ty)
            if i is not None:
                return num(i)
            return ('o', ('disc', v[1]))
        t = term(v)
        d = st.facts.get(('disc', t))
        if d is not None:
            return num(d)
        return ('disc', t, ty)

    def vindex(self, name, *tys):
        for ty in tys:
            if ty in self.enums and name in self.enums[ty]:
                return self.enums[ty].index(name)
        return VIDX.get(name)

    def fit(self, st, e, ty, op, where=None):
        """machine integer of type ty holding exactly e if it fits, else a wrapped term"""
        r = RANGE.get(ty)
        if r is None:
            return ('int', e)
        lo, hi = self.rng(st, e)
        if r[0] <= lo and hi <= r[1]:
            return ('int', e)
        s = ('wrap', ty, e)
        st.bounds.setdefault(s, r)
        return ('bits', e) if op == 'cast' else ('int', asym(s))

    def parity(self, e):
        """low bit of e when known"""
        if all(c % 2 == 0 for _, c in e[1]):
            return e[0] % 2
        return None

    def binop(self, st, a, f, s, rv):
        x, y = (self.operand(st, a, f, o) for o in rv.ops)
        tx, ty = self.opty(f, rv.ops[0]), self.opty(f, rv.ops[1])
        op = rv.a
        base = op.replace('Checked', '').replace('Unchecked', '')
        if x[0] == 'ref':
            x = self.load(st, x[1], x[2])
        if y[0] == 'ref':
            y = self.load(st, y[1], y[2])
        if base in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return self.compare(st, base.lower(), x, y, tx or ty)
        if tx == 'f64' or x[0] == 'flt':
            return ('flt', (base.lower(), self.fterm(x), self.fterm(y)))
        if tx == 'bool' or x[0] == 'bool':
            bx, by = (v[1] if v[0] == 'bool' else term(v) for v in (x, y))
            if base == 'BitAnd':
                return ('bool', band(bx, by))
            if base == 'BitOr':
                return ('bool', bnot(band(bnot(bx), bnot(by))))
            return ('bool', ('xor', bx, by))
        ty = tx or (f.types.get(s.place.local) if base in ('Shl', 'Shr') and not s.place.proj and f.types.get(s.place.local) in RANGE else ty)
        return self.arith(st, base, x, y, ty, op.startswith('Checked'), f, s.span)

    def arith(self, st, base, x, y, ty, checked, f, span):
        # bit patterns: +-1 on a pattern whose low bit is known cannot carry
        if x[0] == 'bits' and y[0] == 'int' and aconst(y[1]) is not None and base in ('Add', 'Sub'):
            c = aconst(y[1])
            pb = self.parity(x[1])
            e = aadd(x[1], y[1], 1 if base == 'Add' else -1)
            if c == 1 and pb is not None and (base == 'Sub') == (pb == 1):
                v = ('bits', e)
                return ('agg', None, 'tuple', (v, ('bool', False))) if checked else v
        if x[0] == 'raw' or y[0] == 'raw':
            x, y = self.rawbits(st, x), self.rawbits(st, y)
            if x[0] == 'bits':
                return self.arith(st, base, x, y, ty, checked, f, span)
            v = ('o', (base.lower(), term(x), term(y)))
            if base == 'Shr' and ty in ('u64', 'usize') and y[0] == 'int' and aconst(y[1]) is not None:
                v = ('int', asym(v[1]))
                st.bounds.setdefault(v[1][1][0][0], (0, 2**64 - 1 >> aconst(y[1])))
            return ('agg', None, 'tuple', (v, ('bool', ('ovf', term(v))))) if checked else v
        if base == 'BitOr' and x[0] == 'bits' and y[0] == 'int' and aconst(y[1]) == 1 and self.parity(x[1]) == 0:
            return ('bits', aadd(x[1], y[1]))
        if base == 'Offset':
            return ('o', ('off', term(x), term(y)))
        ax, ay = self.as_int(st, x, ty), self.as_int(st, y, ty if base not in ('Shl', 'Shr') else None)
        e = self.exact(st, base, ax, ay)
        if e is None:
            e = asym((base.lower(),) + (tuple(sorted((ax, ay), key=repr)) if base in ('BitAnd', 'BitOr', 'BitXor', 'Mul') else (ax, ay)))
            self.opbounds(st, base, ax, ay, e, ty)
        r = RANGE.get(ty)
        lo, hi = self.rng(st, e)
        ok = r is None or (r[0] <= lo and hi <= r[1])
        if checked:
            if ok:
                return ('agg', None, 'tuple', (('int', e), ('bool', False)))
            return ('agg', None, 'tuple', (('int', e), ('bool', ('ovf', base, e, ty))))
        if ok:
            return ('int', e)
        if base == 'Shl' and ty in ('i64', 'isize'):
            w = ('wrap', ty, e)
            st.bounds.setdefault(w, r)
            self.event(st, 'wrap', (base, e, ty), f, span)
            return ('bits', e)
        w = ('wrap', ty, e)
        st.bounds.setdefault(w, r)
        self.event(st, 'wrap', (base, e, ty), f, span)
        return ('int', asym(w))

    def rawbits(self, st, v):
        if v[0] == 'raw':
            w = v[1]
            if self.kindset(st, w) == {'FIX'}:
                return ('bits', aadd(ascale(self.fixaff(st, w), 2), (1, ())))
        return v

    def exact(self, st, base, ax, ay):
        if base == 'Add':
            return aadd(ax, ay)
        if base == 'Sub':
            return aadd(ax, ay, -1)
        cx, cy = aconst(ax), aconst(ay)
        if base == 'Mul':
            if cx is not None:
                return ascale(ay, cx)
            if cy is not None:
                return ascale(ax, cy)
            return None
        if base == 'Shl' and cy is not None and 0 <= cy < 128:
            return ascale(ax, 1 << cy)
        if base == 'Shr' and cy is not None and cy >= 0:
            k = 1 << cy
            if cx is not None:
                return (cx >> cy, ())
            if all(c % k == 0 for _, c in ax[1]):
                return aff(ax[0] // k, [(s, c // k) for s, c in ax[1]])
            return None
        if cx is not None and cy is not None:
            try:
                return ({'Div': lambda: int(abs(cx) // abs(cy)) * (1 if (cx < 0) == (cy < 0) else -1),
                         'Rem': lambda: abs(cx) % abs(cy) * (1 if cx >= 0 else -1), 'BitAnd': lambda: cx & cy, 'BitOr': lambda: cx | cy, 'BitXor': lambda: cx ^ cy}[base](), ())
            except (KeyError, ZeroDivisionError):
                return None
        return None

    def opbounds(self, st, base, ax, ay, e, ty):
        (xl, xh), (yl, yh) = self.rng(st, ax), self.rng(st, ay)
        s = e[1][0][0]
        r = RANGE.get(ty, (-INF, INF))
        b = None
        if base in ('Mul',):
            c = [prod(p, q) for p in (xl, xh) for q in (yl, yh)]
            b = (min(c), max(c))
            if ax == ay:
                nz = len(ax[1]) == 1 and not ax[0] and self.excluded(st, ax[1][0][0], 0)
                b = (max(b[0], 1 if nz or xl > 0 or xh < 0 else 0), b[1])
        elif base == 'Shr':
            if 0 <= yl:
                sh = lambda v, k: v if abs(v) == INF else v >> int(min(k, 200))
                c = [sh(v, k) for v in (xl, xh) for k in (yl, yh)]
                b = (min(c), max(c))
        elif base == 'Shl':
            if 0 <= yl and yh < 4096:
                c = [prod(v, 1 << int(k)) for v in (xl, xh) for k in (yl, yh)]
                b = (min(c), max(c))
            else:
                b = (-INF, INF)
        elif base == 'BitAnd':
            if xl >= 0 or yl >= 0:
                b = (0, min([h for l, h in ((xl, xh), (yl, yh)) if l >= 0]))
            else:
                b = pow2(min(xl, yl), max(xh, yh))
        elif base in ('BitOr', 'BitXor'):
            b = pow2(min(xl, yl), max(xh, yh)) if xl < 0 or yl < 0 else (0, pow2(0, max(xh, yh))[1])
        elif base in ('Rem', 'mod_floor'):
            m = max(abs(yl), abs(yh))
            b = (-m, m)
            if base == 'Rem' and xl >= 0:
                b = (0, m)
        elif base in ('Div', 'div_floor'):
            m = max(abs(xl), abs(xh))
            b = (-m - (1 if base == 'div_floor' else 0), m)
            if base == 'div_floor' and m < INF:
                b = (-m, m)
            if yl > 1 or yh < -1:
                b = (b[0] // 2 if b[0] != -INF else b[0], b[1] // 2 + 1 if b[1] != INF else b[1])
            if not (yl <= -1 <= yh):
                b = (min(xl, 0) if yl > 0 else b[0], max(xh, 0) if yl > 0 else b[1])
        elif base == 'abs':
            b = (0, max(abs(xl), abs(xh)))
        if b is None:
            b = r
        st.bounds[s] = b
        if self.relational and base in ('Div', 'div_floor', 'Rem', 'mod_floor') and xl >= 0 and yl > 0 and len(ax[1]) >= 1:
            if base in ('Div', 'div_floor'):
                k = aconst(ay)
                self.setrng(st, aadd(ax, e, -(k if k else 1)), 0, INF)
            else:
                self.setrng(st, aadd(ax, e, -1), 0, INF)
                self.setrng(st, aadd(ay, e, -1), 1, INF)

    def compare(self, st, op, x, y, ty):
        if x[0] == 'raw' and y[0] == 'raw' and op in ('eq', 'ne'):
            kx, ky = self.kindset(st, x[1]), self.kindset(st, y[1])
            if kx and ky and not kx & ky:
                return ('bool', op == 'ne')          # one word never encodes two kinds of value
            if self.relational and kx == ky == {'BIGNUM'} and x[1][0] == y[1][0] == 'V':
                # the same object holds the same number
                t = band(('eq',) + tuple(sorted((term(x), term(y)), key=repr)), self.icmp(st, 'eq', asym(('bn', x[1][1])), asym(('bn', y[1][1]))))
                return ('bool', t if op == 'eq' else bnot(t))
        if x[0] == 'kindof' or y[0] == 'kindof':
            k, o = (x, y) if x[0] == 'kindof' else (y, x)
            if o[0] == 'int' and aconst(o[1]) is not None and op in ('eq', 'ne'):
                t = ('kindeq', k[1], self.kind_name.get(aconst(o[1]), '?%s' % aconst(o[1])))
                ks = self.kindset(st, k[1])
                if t[2] not in ks:
                    t = False
                elif ks == {t[2]}:
                    t = True
                return ('bool', t if op == 'eq' else bnot(t))
        if x[0] == 'disc' or y[0] == 'disc':
            d, o = (x, y) if x[0] == 'disc' else (y, x)
            if o[0] == 'int' and aconst(o[1]) is not None and op in ('eq', 'ne'):
                t = ('isvar', d[1], aconst(o[1]))
                return ('bool', t if op == 'eq' else bnot(t))
            if op in ('eq', 'ne') and x[0] == y[0] == 'disc':
                t = ('eq',) + tuple(sorted((x[:2], y[:2]), key=repr))
                return ('bool', t if op == 'eq' else bnot(t))
        if ty == 'f64' or x[0] == 'flt' or y[0] == 'flt':
            a, b = self.fterm(x), self.fterm(y)
            if op == 'gt':
                return ('bool', ('flt', 'lt', b, a))
            if op == 'ge':
                return ('bool', ('flt', 'le', b, a))
            if op in ('eq', 'ne'):
                t = ('flt', 'eq') + tuple(sorted((a, b), key=repr))
                return ('bool', t if op == 'eq' else bnot(t))
            return ('bool', ('flt', op, a, b))
        if x[0] == 'bool' and y[0] == 'bool' and op in ('eq', 'ne'):
            if y[1] in (True, False) and not isinstance(y[1], tuple):
                t = x[1] if y[1] else bnot(x[1])
            elif x[1] in (True, False) and not isinstance(x[1], tuple):
                t = y[1] if x[1] else bnot(y[1])
            else:
                t = ('eq',) + tuple(sorted((x[1], y[1]), key=repr))
            return ('bool', t if op == 'eq' else bnot(t))
        if ty in RANGE or x[0] == 'int' or y[0] == 'int' or x[0] == 'big':
            ax = x[1] if x[0] == 'big' else self.as_int(st, x, ty)
            ay = y[1] if y[0] == 'big' else self.as_int(st, y, ty)
            return ('bool', self.icmp(st, op, ax, ay))
        t = tuple(sorted((term(x), term(y)), key=repr)) if op in ('eq', 'ne') else (term(x), term(y))
        if op in ('eq', 'ne'):
            if t[0] == t[1] and x[0] != 'flt':
                return ('bool', op == 'eq')
            return ('bool', ('eq',) + t if op == 'eq' else bnot(('eq',) + t))
        if op in ('gt', 'ge'):
            return ('bool', ({'gt': 'lt', 'ge': 'le'}[op], t[1], t[0]))
        return ('bool', (op,) + t)

    def icmp(self, st, op, ax, ay):
        if op in ('gt', 'ge'):
            return self.icmp(st, {'gt': 'lt', 'ge': 'le'}[op], ay, ax)
        if op == 'ne':
            return bnot(self.icmp(st, 'eq', ax, ay))
        if op == 'le':
            return bnot(self.icmp(st, 'lt', ay, ax))
        d = aadd(ax, ay, -1)
        lo, hi = self.rng(st, d)
        if op == 'lt':
            if hi < 0:
                return True
            if lo >= 0:
                return False
            return ('ilt', d)          # d < 0
        if lo == hi == 0:
            return True
        if lo > 0 or hi < 0:
            return False
        if repr(ascale(d, -1)) < repr(d):
            d = ascale(d, -1)
        return ('ieq', d)              # d == 0

    def cast(self, st, a, f, s, rv):
        v = self.operand(st, a, f, rv.ops[0])
        kind, to = rv.a
        frm = self.opty(f, rv.ops[0])
        if kind == 'IntToInt':
            if v[0] == 'raw':
                v = self.rawbits(st, v)
            if v[0] in ('kindof', 'disc'):
                return v
            if v[0] == 'bool':
                if v[1] in (True, False) and not isinstance(v[1], tuple):
                    return num(int(v[1]))
                t = ('b2i', v[1])
                st.bounds[t] = (0, 1)
                return ('int', asym(t))
            if v[0] == 'bits':
                lo, hi = self.rng(st, v[1])
                r = RANGE.get(to)
                if r and r[0] <= lo and hi <= r[1]:
                    return ('int', v[1])
                return v if r and width(to) >= 64 else ('o', ('trunc', to, v[1]))
            if v[0] in ('o', 'int', 'flt'):
                e = self.as_int(st, v, frm)
                r = RANGE.get(to)
                if r is None:
                    return ('o', ('cast', to, term(v)))
                lo, hi = self.rng(st, e)
                if r[0] <= lo and hi <= r[1]:
                    return ('int', e)
                if frm in RANGE and width(to) >= width(frm) or frm not in RANGE:
                    return ('bits', e)
                w = ('trunc', to, e)
                st.bounds.setdefault(w, r)
                self.event(st, 'trunc', (frm, to, e), f, s.span)
                return ('int', asym(w))
            return ('o', ('cast', to, term(v)))
        if kind in ('FloatToFloat', 'IntToFloat') and to != 'f64':
            return ('flt', ('lossy', to, term(v)))
        if kind == 'IntToFloat':
            if v[0] in ('int', 'o', 'bits'):
                return ('flt', ('i2f', self.as_int(st, v, frm)))
            return ('flt', ('i2f', term(v)))
        if kind == 'FloatToInt':
            t = ('f2i', to, self.fterm(v))
            st.bounds.setdefault(t, RANGE.get(to, (-INF, INF)))
            self.event(st, 'saturate', (to, self.fterm(v)), f, s.span)
            return ('int', asym(t))
        return v

    # ---------------------------------------------------------------- branching
    def assume(self, st, t, val):
        """refine st with bool term t == val; False: infeasible"""
        if isinstance(t, bool):
            return t == val
        if t[0] == 'not':
            return self.assume(st, t[1], not val)
        k = st.facts.get(('b', t))
        if k is not None:
            return k == val
        if t[0] == 'and' and val:
            return self.assume(st, t[1], True) and self.assume(st, t[2], True)
        st.facts[('b', t)] = val
        if t[0] == 'ilt':
            lo, hi = self.rng(st, t[1])
            if val:
                if not self.setrng(st, t[1], -INF, -1):
                    return False
            else:
                if not self.setrng(st, t[1], 0, INF):
                    return False
            st.guard(t, val)
            return True
        if t[0] == 'ieq':
            if val:
                if not self.setrng(st, t[1], 0, 0):
                    return False
            else:
                lo, hi = self.rng(st, t[1])
                if lo == 0:
                    self.setrng(st, t[1], 1, INF)
                elif hi == 0:
                    self.setrng(st, t[1], -INF, -1)
            st.guard(t, val)
            return True
        if t[0] == 'kindeq':
            return self.setkinds(st, t[1], {t[2]} if val else self.kindset(st, t[1]) - {t[2]})
        if t[0] == 'kindin':
            ks = self.kindset(st, t[1])
            return self.setkinds(st, t[1], ks & t[2] if val else ks - t[2])
        if t[0] == 'isvar':
            if val:
                st.facts[('disc', t[1])] = t[2]
            else:
                ex = st.facts.get(('notvar', t[1]), frozenset()) | {t[2]}
                st.facts[('notvar', t[1])] = ex
        if t[0] == 'ovf' and len(t) == 4:
            r = RANGE.get(t[3])
            if r and not val and not self.setrng(st, t[2], *r):
                return False
            if val:
                lo, hi = self.rng(st, t[2])
                if lo >= r[0] and hi <= r[1] or not self.outside(st, t[2], r):
                    return False
            return True
        st.guard(t, val)
        return True

    def kindset(self, st, v):
        if v[0] == 'V':
            return st.kinds.get(v[1], IMM | self.heap)
        if v[0] == 'Vi':
            lo, hi = self.rng(st, v[1])
            if FIXR[0] <= lo and hi <= FIXR[1]:
                return frozenset(['FIX'])
            return frozenset(['FIX', 'BIGNUM'])
        if v[0] == 'Vf':
            return frozenset(['FLO', 'FLOAT'])
        if v[0] == 'Vb':
            return frozenset(['TRUE']) if v[1] is True else frozenset(['FALSE']) if v[1] is False else frozenset(['TRUE', 'FALSE'])
        if v[0] == 'Vn':
            return frozenset(['NIL'])
        return IMM | self.heap
    def setkinds(self, st, v, ks):
        ks = frozenset(ks)
        if not ks:
            return False
        old = self.kindset(st, v)
        if v[0] == 'V':
            if not ks & old:
                return False
            if ks & old != old:
                st.kinds[v[1]] = ks & old
        return True

    def split(self, st, t, bt, bf):
        """two-way branch on bool term"""
        out = []
        if isinstance(t, bool):
            return [(st, bt if t else bf)]
        s1, s2 = st, st.copy()
        if self.assume(s1, t, True):
            out.append((s1, bt))
        if self.assume(s2, t, False):
            out.append((s2, bf))
        return out

    def switch(self, st, a, f, b, t):
        v = self.operand(st, a, f, t.op)
        if v[0] == 'ref':
            v = self.load(st, v[1], v[2])
        if v[0] == 'bool':
            m = dict((k, x) for k, x in t.targets)
            bf = m.get(0, m.get(None))
            bt = m.get(1, m.get(None))
            if 0 not in m:
                bf = m[None]
            return self.split(st, v[1], bt, bf)
        if v[0] == 'kindof':
            out = []
            rest = self.kindset(st, v[1])
            for k, x in t.targets:
                if k is None:
                    if rest:
                        s2 = st.copy()
                        if self.setkinds(s2, v[1], rest):
                            out.append((s2, x))
                else:
                    n = self.kind_name.get(k)
                    if n in rest:
                        s2 = st.copy()
                        if self.setkinds(s2, v[1], {n}):
                            out.append((s2, x))
                    rest = rest - {n}
            return out
        if v[0] == 'disc':
            out = []
            ex = st.facts.get(('notvar', v[1]), frozenset())
            names = self.enums.get(v[2])
            tot = len(names) if names else 2 if v[2] in ('Option', 'Result', 'ControlFlow') else None
            keys = [k for k, x in t.targets if k is not None]
            for k, x in t.targets:
                if k is not None and k in ex:
                    continue
                s2 = st.copy()
                if k is not None:
                    s2.facts[('disc', v[1])] = k
                    s2.guard('is', v[1], k)
                else:
                    left = [i for i in range(tot) if i not in keys and i not in ex] if tot else None
                    if left is not None and not left:
                        continue
                    if left is not None and len(left) == 1:
                        s2.facts[('disc', v[1])] = left[0]
                        s2.guard('is', v[1], left[0])
                    else:
                        s2.facts[('notvar', v[1])] = ex | frozenset(keys)
                        s2.guard('isnot', v[1], tuple(sorted(keys)))
                out.append((s2, x))
            return out
        if v[0] == 'raw':
            w = v[1]
            return self.rawswitch(st, w, t)
        ty = self.opty(f, t.op)
        e = self.as_int(st, v, ty)
        c = aconst(e)
        if c is not None:
            for k, x in t.targets:
                kk = k
                r = RANGE.get(ty)
                if k is not None and r and ty[0] == 'i' and k > r[1]:
                    kk = k - 2 ** width(ty)
                if kk == c or k is None:
                    return [(st, x)]
            return []
        out = []
        cur = st
        for k, x in t.targets:
            if k is None:
                out.append((cur, x))
                cur = None
                break
            r = RANGE.get(ty)
            kk = k - 2 ** width(ty) if r and ty[0] == 'i' and k > r[1] else k
            tm = self.icmp(cur, 'eq', e, (kk, ()))
            s2 = cur.copy()
            if self.assume(s2, tm, True):
                out.append((s2, x))
            if not self.assume(cur, tm, False):
                cur = None
                break
        return out

    RAWK = {4: 'NIL'}
    def rawswitch(self, st, w, t):
        """switch on the raw bits of a value: compare against the special constants"""
        names = self.rawnames()
        rest = self.kindset(st, w)
        out = []
        for k, x in t.targets:
            if k is None:
                if rest:
                    s2 = st.copy()
                    if self.setkinds(s2, w, rest):
                        out.append((s2, x))
            else:
                n = names.get(k)
                if n is None:
                    s2 = st.copy()
                    s2.guard('rawis', term(w), k)
                    out.append((s2, x))
                    continue
                if n in rest:
                    s2 = st.copy()
                    if self.setkinds(s2, w, {n}):
                        out.append((s2, x))
                rest = rest - {n}
        return out
    def rawnames(self):
        r = getattr(self, '_rawn', None)
        if r is None:
            r = {}
            for n, k in (('NIL_VALUE', 'NIL'), ('TRUE_VALUE', 'TRUE'), ('FALSE_VALUE', 'FALSE'), ('UNINITIALIZED', 'UNINIT')):
                for f in self.p.fns:
                    if f.kind == 'const' and f.key.split('::')[-1] == n:
                        v = const_value_of(self.p, f)
                        if isinstance(v, int):
                            r[v] = k
            self._rawn = r
        return r

    def do_assert(self, st, a, f, t, out):
        v = self.operand(st, a, f, t.op)
        b = v[1] if v[0] == 'bool' else term(v)
        neg = t.text.startswith('!')
        want = not neg
        s2 = st.copy()
        res = []
        if self.assume(s2, b, not want):
            self.event(s2, 'assert', (t.text, b), f, t.span)
            out.append((s2, ('panic', t.text, (f.key, t.span))))
        if self.assume(st, b, want):
            res.append((st, t.succ[0]))
        return res

    # ---------------------------------------------------------------- calls
    def call(self, st, a, f, b, t, depth, callstack, out):
        args = [self.operand(st, a, f, o) for o in t.args]
        fname = t.func
        if fname is None:
            fv = self.operand(st, a, f, t.fop)
            if fv[0] == 'o' and fv[1][0] == 'c':
                fname = fv[1][1]
        outs = self.apply(st, a, f, t, fname, args, depth, callstack)
        nxt = []
        for s2, r in outs:
            if r[0] == 'panic':
                out.append((s2, r))
            elif r[0] == 'cut':
                out.append((s2, r))
            elif not t.succ:
                pass
            else:
                v = r[1]
                if v[0] == 'o' and not t.dest.proj:
                    v = self.typed(s2, v[1], f.types.get(t.dest.local))
                self.write(s2, a, t.dest, v, f)
                nxt.append((s2, t.succ[0]))
        return nxt

    def apply(self, st, a, f, t, fname, args, depth, callstack):
        """-> [(state, ('ret', v) | ('panic',..))]"""
        gs = self.p.resolve(fname, f.crate) if fname else []
        if len(gs) > 1 and fname.startswith('<'):
            tr = split_qself(fname)[1] or ''
            m = re.search(r'<(.*)>$', tr)
            if m:
                gs = [x for x in gs if len(x.args) > 1 and simple(x.types[x.args[1]]) == simple(m.group(1))] or gs
        g = gs[0] if len(gs) == 1 else None
        h = self.hook(st, f, t, g, args, fname)
        if h is not None:
            return h
        h = self.ruby(st, f, t, g, args, fname)
        if h is not None:
            return h
        if g is not None and g.blocks and depth < self.MAXDEPTH and g.key not in callstack and self.inline(g, depth) and g.key not in self.opaque_fns:
            try:
                s2 = st.copy()
                res = self.run(g, args, s2, depth + 1, callstack=callstack + (g.key,))
                if not any(o[0] == 'cut' for _, o in res):
                    return res
                self.opaque_fns.add(g.key)
            except Limit:
                self.opaque_fns.add(g.key)
                if depth < 2:
                    pass
        if g is None and fname and fname.startswith('<'):
            h = self.defaulted(st, a, f, t, fname, args, depth, callstack)
            if h is not None:
                return h
        if g is None or not g.blocks:
            h = self.std(st, f, t, fname, args, depth, callstack)
            if h is not None:
                return h
        if not t.succ:
            return [(st, ('panic', self.panic_text(st, fname, args), (f.key, t.span)))]
        name = g.key if g is not None else canon(fname or 'indirect')
        ts = tuple(self.dterm(st, x) for x in args)
        self.opaque_call(st, f, t, name, args)
        pure = g is None or not any('&mut' in (g.types.get(x) or '') for x in g.args)
        if pure:
            tm = ('call', name) + ts
        else:
            n = sum(1 for e in st.effects if e[0] == 'call')
            tm = ('call', name) + ts + (('#', n),)
            st.eff('call', name, ts)
            for x in args:
                self.clobber(st, x)
        ty = f.types.get(t.dest.local) if not t.dest.proj else None
        return [(st, ('ret', self.typed(st, tm, ty)))]

    def defaulted(self, st, a, f, t, fname, args, depth, callstack):
        """`ne`, `lt`, `le`, `gt`, `ge` of a type that defines only `eq` or `partial_cmp`"""
        m = re.search(r'::(ne|lt|le|gt|ge)$', fname)
        if not m or len(args) != 2:
            return None
        op = m.group(1)
        base = fname[:m.start()] + ('::eq' if op == 'ne' else '::partial_cmp')
        if len(self.p.resolve(base, f.crate)) != 1:
            return None
        out = []
        for s2, o in self.apply(st, a, f, t, base, args, depth, callstack):
            if o[0] != 'ret':
                out.append((s2, o))
                continue
            if op == 'ne':
                if o[1][0] != 'bool':
                    return None
                out.append((s2, ('ret', ('bool', bnot(o[1][1])))))
                continue
            for s3, tag, pv in self.optcases(s2, o[1], 'Option'):
                if tag != 'Some':
                    out.append((s3, ('ret', ('bool', False))))
                    continue
                tm = term(pv)
                if isinstance(tm, tuple) and tm[0] == 'icmp':
                    out.append((s3, ('ret', ('bool', self.icmp(s3, op, tm[1], (0, ()))))))
                elif pv[0] == 'agg' and pv[1] in ('Less', 'Equal', 'Greater'):
                    out.append((s3, ('ret', ('bool', {'lt': pv[1] == 'Less', 'le': pv[1] != 'Greater', 'gt': pv[1] == 'Greater', 'ge': pv[1] != 'Less'}[op]))))
                else:
                    out.append((s3, ('ret', ('bool', ('ordis', op, tm)))))
        return out

    def clobber(self, st, x):
        """a callee that was not interpreted may have changed what a mutable reference points at"""

    def dterm(self, st, v, n=0):
        """term of a value with references followed"""
        if v[0] == 'ref' and n < 4:
            return self.dterm(st, self.load(st, v[1], v[2]), n + 1)
        if v[0] == 'agg' and n < 4:
            return ('agg', v[1], v[2] if isinstance(v[2], str) else repr(v[2])) + tuple(self.dterm(st, x, n + 1) for x in v[3])
        return term(v)

    def panic_text(self, st, fname, args):
        return 'call of %s' % canon(fname or '?')

    # Ruby value primitives ------------------------------------------------------------------
    def val(self, st, v):
        while v[0] == 'ref':
            v = self.load(st, v[1], v[2])
        if v[0] == 'o' and v[1][0] == '&':
            v = ('o', v[1][1])
        return v

    def fixaff(self, st, v):
        """integer held by a value known to be an integer"""
        if v[0] == 'Vi':
            return v[1]
        s = ('n', v[1])
        if s not in st.bounds:
            st.bounds[s] = FIXR if self.kindset(st, v) == {'FIX'} else (-INF, INF)
        return asym(s)
    def bigaff(self, st, v):
        if v[0] == 'Vi':
            return v[1]
        return asym(('bn', v[1]))
    def floterm(self, v):
        return v[1] if v[0] == 'Vf' else ('fl', v[1])

    def boolkind(self, st, v, ks):
        k = self.kindset(st, v)
        if not k & ks:
            return ('bool', False)
        if k <= ks:
            return ('bool', True)
        return ('bool', ('kindin', v, frozenset(ks)))

    PAY = None
    def payload(self, st, f, t, g, v, kinds):
        """access of an object's payload as one of kinds"""
        ks = self.kindset(st, v)
        if not ks <= kinds:
            self.event(st, 'payload', (term(v), tuple(sorted(kinds)), tuple(sorted(ks - kinds))[:40]), f, t.span)

    def ruby(self, st, f, t, g, args, fname):
        R = lambda v: [(st, ('ret', v))]
        if g is None:
            if not fname:
                return None
            if re.search(r'NonZeroU64::get$', fname):
                v = self.val(st, args[0])
                if v[0] == 'raw':
                    return R(self.rawbits(st, v))
            return None
        st_, nm = g.self_type, g.name
        if st_ == 'Value':
            v = self.val(st, args[0]) if args else None
            if nm == 'from' and v is not None:
                if v[0] == 'bits' or v[0] == 'int':
                    e = v[1]
                    if aconst(e) is not None and aconst(e) in self.rawnames():
                        k = self.rawnames()[aconst(e)]
                        return R({'NIL': ('Vn',), 'TRUE': ('Vb', True), 'FALSE': ('Vb', False)}.get(k, ('o', ('rawval', aconst(e)))))
                    if self.parity(e) == 1:
                        h = aff((e[0] - 1) // 2, [(s, c // 2) for s, c in e[1]])
                        lo, hi = self.rng(st, h)
                        if FIXR[0] <= lo and hi <= FIXR[1]:
                            return R(('Vi', h))
                        self.event(st, 'wrap', ('fixnum', h, 'i63'), f, t.span)
                    return R(('V', self.freshv(st, ('mkv', e))))
                if v[0] == 'raw':
                    return R(v[1])
                return None
            if nm in ('fixnum', 'integer') and v is not None:
                e = self.as_int(st, v, 'i64')
                lo, hi = self.rng(st, e)
                if nm == 'fixnum' and not (FIXR[0] <= lo and hi <= FIXR[1]):
                    self.event(st, 'wrap', ('fixnum', e, 'i63'), f, t.span)
                    return R(('V', self.freshv(st, ('badfix', e), {'FIX'})))
                return R(('Vi', e))
            if nm == 'bignum':
                if v[0] == 'big':
                    return R(('Vi', v[1]))
                return R(('V', self.freshv(st, ('bignum', term(v)), {'FIX', 'BIGNUM'})))
            if nm == 'float':
                return R(('Vf', self.fterm(v)))
            if nm == 'bool':
                return R(('Vb', v[1] if v[0] == 'bool' else term(v)))
            if nm == 'nil':
                return R(('Vn',))
            if nm == 'true_val':
                return R(('Vb', True))
            if nm == 'false_val':
                return R(('Vb', False))
            if nm == 'deref' and v is not None:
                return R(('raw', v))
            if nm == 'eq' and g.trait == 'PartialEq' and len(args) == 2:
                w = self.val(st, args[1])
                return R(self.valeq(st, v, w))
            if v is None or v[0] not in ('V', 'Vi', 'Vf', 'Vb', 'Vn'):
                return None
            if nm in ('get', 'id'):
                return R(('raw', v))
            if nm == 'is_fnum':
                return R(self.boolkind(st, v, {'FIX'}))
            if nm == 'is_packed_value':
                return R(self.boolkind(st, v, IMM))
            if nm == 'is_packed_num':
                return R(self.boolkind(st, v, {'FIX', 'FLO'}))
            if nm == 'is_packed_symbol':
                return R(self.boolkind(st, v, {'SYM'}))
            if nm == 'is_nil':
                return R(self.boolkind(st, v, {'NIL'}))
            if nm == 'as_fnum':
                self.payload(st, f, t, g, v, {'FIX'})
                return R(('int', self.fixaff(st, v)))
            if nm == 'as_packed_symbol':
                self.payload(st, f, t, g, v, {'SYM'})
                return R(('o', ('sym', term(v))))
            if nm == 'as_flonum':
                return self.kindopt(st, v, {'FLO'}, lambda s: ('flt', self.floterm(v)))
            if nm == 'to_bool':
                if v[0] == 'Vb':
                    return R(('bool', v[1]))
                return R(self.notbool(self.boolkind(st, v, {'NIL', 'FALSE'})))
            if nm in ('rvalue', 'rvalue_mut'):
                if self.kindset(st, v) & IMM:
                    self.payload(st, f, t, g, v, self.heap)
                return R(('rv', v))
            return None
        if st_ == 'RValue':
            v = self.val(st, args[0]) if args else None
            if v is None or v[0] != 'rv':
                return None
            w = v[1]
            if nm == 'kind':
                ks = self.kindset(st, w)
                if len(ks) == 1 and list(ks)[0] in self.heap:
                    inv = {n: k for k, n in self.kind_name.items()}
                    return R(num(inv[list(ks)[0]]))
                return R(('kindof', w))
            pay = self.payload_kinds().get(nm)
            if pay:
                self.payload(st, f, t, g, w, pay)
                if nm == 'float':
                    return R(('flt', self.floterm(w)))
                if nm == 'bignum':
                    return R(('big', self.bigaff(st, w)))
                return R(('o', ('&', ('pay', nm.replace('_mut', ''), term(w)))))
            if nm == 'pack':
                return R(w)
            return None
        return None

    def payload_kinds(self):
        """accessor name -> object kinds whose payload it reads"""
        r = getattr(self, '_pay', None)
        if r is None:
            import marking
            r = {}
            tf = marking.tag_fields(self.p, self.kind_name) if False else None
            names = {n.lower(): n for n in self.kind_name.values()}
            extra = {'rhash': {'HASH'}, 'object': {'ORDINARY'}}
            for g in self.p.fns:
                if g.self_type == 'RValue' and g.trait is None:
                    b = g.name[:-4] if g.name.endswith('_mut') else g.name
                    if b in extra:
                        r[g.name] = frozenset(extra[b])
                    elif b in names and g.args and len(g.args) == 1:
                        r[g.name] = frozenset([names[b]])
            for n in list(r):
                b = n[:-4] if n.endswith('_mut') else n
                if b in ('module',):
                    r[n] = frozenset(['MODULE', 'CLASS'])
                if b in ('method',):
                    r[n] = frozenset(['METHOD', 'UNBOUND_METHOD'])
                if b in ('string',):
                    r[n] = frozenset(['STRING', 'BYTES']) & frozenset(self.kind_name.values())
            self._pay = r
        return r

    def notbool(self, b):
        return ('bool', bnot(b[1]))

    def valeq(self, st, v, w):
        if term(v) == term(w):
            return ('bool', True)
        kv, kw = self.kindset(st, v), self.kindset(st, w)
        if kv == kw == frozenset(['FIX']):
            return ('bool', self.icmp(st, 'eq', self.fixaff(st, v), self.fixaff(st, w)))
        if not kv & kw:
            return ('bool', False)
        return ('bool', ('same',) + tuple(sorted((term(v), term(w)), key=repr)))

    def freshv(self, st, t, ks=None):
        st.kinds[t] = frozenset(ks) if ks else self.unknown_kinds(st, t)
        return t

    def kindopt(self, st, v, ks, mk):
        b = self.boolkind(st, v, ks)
        if b[1] is True:
            return [(st, ('ret', ('agg', 'Some', 'Option', (mk(st),))))]
        if b[1] is False:
            return [(st, ('ret', ('agg', 'None', 'Option', ())))]
        s2 = st.copy()
        out = []
        if self.assume(st, b[1], True):
            out.append((st, ('ret', ('agg', 'Some', 'Option', (mk(st),)))))
        if self.assume(s2, b[1], False):
            out.append((s2, ('ret', ('agg', 'None', 'Option', ()))))
        return out

    # standard library ------------------------------------------------------------------------
    def optcases(self, st, v, ty):
        """split an Option/Result value -> [(state, 'Some'|'None'|'Ok'|'Err', payload)]"""
        v = self.val(st, v) if v[0] == 'ref' else v
        if v[0] == 'agg' and v[1] in ('Some', 'None', 'Ok', 'Err'):
            return [(st, v[1], v[3][0] if v[3] else None)]
        names = ('None', 'Some') if ty == 'Option' else ('Ok', 'Err')
        t = term(v)
        d = st.facts.get(('disc', t))
        out = []
        for i, n in enumerate(names):
            if d is not None and d != i:
                continue
            s2 = st.copy()
            if d is None:
                if i in s2.facts.get(('notvar', t), ()):
                    continue
                s2.facts[('disc', t)] = i
                s2.guard('is', t, i)
            out.append((s2, n, ('o', ('fld', ('as', t, n), 0))))
        return out

    def payty(self, text, i=0):
        from program import generic_args
        ga = generic_args(text)
        return ga[i] if i < len(ga) else None

    def std(self, st, f, t, fname, args, depth, callstack):
        if not fname:
            return None
        dty = f.types.get(t.dest.local) if t.dest is not None and not t.dest.proj else None
        if dty in RANGE and len(args) == 1:
            m = re.search(r'(?:::|>)(len|count|leading_zeros|trailing_zeros|leading_ones|trailing_ones|count_ones|count_zeros|bits|len_utf8|capacity|measure_text_width)$', strip_turbofish(fname))
            if m:
                k = m.group(1)
                tm = ('call', canon(fname)) + tuple(self.dterm(st, x) for x in args)
                st.bounds.setdefault(tm, (0, self.LENMAX if k in ('len', 'count', 'bits', 'capacity', 'measure_text_width') else 64 if k != 'len_utf8' else 4))
                return [(st, ('ret', ('int', asym(tm))))]
        R = lambda v: [(st, ('ret', v))]
        n = fname
        last = callee_last(n)
        m = re.match(r'(?:std|core)::(option::Option|result::Result)::<', n)
        if m:
            kind = 'Option' if 'option' in m.group(1) else 'Result'
            return self.optres(st, f, t, kind, n, last, args, depth, callstack)
        if n.startswith('<'):
            ty, tr, rest = split_qself(n)
            trs = simple(tr or '') if tr else None
            sty = simple(ty)
            if trs == 'Try' and last == 'branch':
                out = []
                for s2, tag, pv in self.optcases(st, args[0], sty):
                    pv = self.retype(s2, pv, ty, 0 if tag in ('Ok', 'Some') else 1)
                    if tag in ('Ok', 'Some'):
                        out.append((s2, ('ret', ('agg', 'Continue', 'ControlFlow', (pv,)))))
                    else:
                        out.append((s2, ('ret', ('agg', 'Break', 'ControlFlow', (('agg', tag, sty, (pv,) if pv is not None else ()),)))))
                return out
            if trs == 'FromResidual':
                v = self.val(st, args[0])
                if v[0] == 'agg':
                    return R(('agg', v[1], sty, v[3]))
                return R(('agg', 'Err' if sty == 'Result' else 'None', sty, (('o', ('residual', term(v))),)))
            x = self.val(st, args[0]) if args else None
            y = self.val(st, args[1]) if len(args) > 1 else None
            ity = re.sub(r"^&('\w+ )?(mut )?", '', ty)
            if trs == 'Clone' and last == 'clone' and x is not None:
                if x[0] == 'o':
                    return R(self.typed(st, x[1], ity))
                return R(x)
            if trs in ('PartialOrd', 'PartialEq', 'Ord') and last in ('lt', 'le', 'gt', 'ge', 'eq', 'ne') and y is not None:
                return R(self.compare(st, last, x, y, ity if ity in RANGE or ity == 'f64' else None))
            dst = f.types.get(t.dest.local) if t.dest is not None and not t.dest.proj else None
            m = re.fullmatch(r'Try(Into|From)', trs or '')
            if m and last == 'try_' + m.group(1).lower() and x is not None and x[0] == 'int':
                to = (generic_args(tr) or ['?'])[0] if m.group(1) == 'Into' else ity
                if to in RANGE:
                    r = RANGE[to]
                    s2 = st.copy()
                    out = []
                    lo, hi = self.rng(st, x[1])
                    if self.setrng(st, x[1], *r):
                        out.append((st, ('ret', ('agg', 'Ok', 'Result', (('int', x[1]),)))))
                    if (lo < r[0] or hi > r[1]) and self.outside(s2, x[1], r):
                        s2.guard('notin', to, x[1])
                        out.append((s2, ('ret', ('agg', 'Err', 'Result', (('o', ('tryfrom',)),)))))
                    return out
            if ity in RANGE and simple(dst or '') == 'BigInt' and (trs or '') in ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr'):
                r = self.numeric(st, f, t, 'BigInt', last, x, y, args, trs)
                if r is not None:
                    return r
            if ity in RANGE or sty == 'BigInt' or ity == 'f64':
                r = self.numeric(st, f, t, ity if ity in RANGE or ity == 'f64' else 'BigInt', last, x, y, args, trs)
                if r is not None:
                    return r
            if trs in ('Into', 'From') and last in ('into', 'from') and x is not None:
                dty = f.types.get(t.dest.local) if not t.dest.proj else None
                if x[0] in ('int',) and (dty in RANGE):
                    return R(x)
                if simple(ty) == simple(dty or '') == simple((generic_args(tr) or ['?'])[0]):
                    return R(x)
                if x[0] in ('int',) and simple(dty or '') == 'BigInt':
                    return R(('big', x[1]))
                if x[0] == 'int' and dty == 'f64':
                    return R(('flt', ('i2f', x[1])))
            if trs == 'Deref' or trs == 'DerefMut' or last in ('as_ref', 'borrow', 'as_mut', 'borrow_mut'):
                if x is not None and x[0] == 'o':
                    return R(('o', ('&', ('*', ('*', x[1])))) if False else ('o', ('&', ('deref', x[1]))))
                if x is not None and x[0] in ('big', 'V', 'Vi', 'Vf', 'Vb', 'Vn'):
                    return R(x)
            if trs in ('FnOnce', 'Fn', 'FnMut') and last.startswith('call'):
                cl = self.val(st, args[0])
                av = args[1] if len(args) > 1 else None
                if cl[0] == 'agg' and isinstance(cl[2], tuple) and cl[2][0] == 'closure':
                    al = list(self.val(st, av)[3]) if av is not None and self.val(st, av)[0] == 'agg' else []
                    return self.closure(st, f, t, cl, al, depth, callstack)
            return None
        m = re.match(r'(?:core|std)::num::<impl (\w+)>::(\w+)$', n)
        if m:
            if not args and m.group(1) in RANGE and m.group(2) in ('min_value', 'max_value'):
                return R(num(RANGE[m.group(1)][m.group(2) == 'max_value']))
            return None if not args else self.numeric(st, f, t, m.group(1), m.group(2), self.val(st, args[0]), self.val(st, args[1]) if len(args) > 1 else None, args, None)
        m = re.match(r'(?:core|std)::f64::<impl f64>::(\w+)$', n)
        if m:
            ts = tuple(self.fterm(self.val(st, x)) for x in args)
            tm = (m.group(1),) + ts
            dty = f.types.get(t.dest.local)
            if m.group(1) == 'partial_cmp':
                return R(('o', ('fcmp',) + ts))
            return R(('flt', tm) if dty == 'f64' else self.typed(st, tm, dty))
        if re.search(r'(^|::)cmp::(min|max)(::<.*>)?$', n) and len(args) == 2:
            x, y = self.val(st, args[0]), self.val(st, args[1])
            dty = f.types.get(t.dest.local)
            if dty in RANGE:
                return self.minmax(st, last, self.as_int(st, x, dty), self.as_int(st, y, dty))
        if n.startswith('num::Integer::') or n.startswith('num_integer::') or re.match(r'(num|num_traits|num_integer)::', n):
            x = self.val(st, args[0])
            aty = self.opty(f, t.args[0]) or ''
            ity = re.sub(r"^&('\w+ )?(mut )?", '', aty)
            return self.numeric(st, f, t, ity if ity in RANGE or ity == 'f64' else 'BigInt', last, x, self.val(st, args[1]) if len(args) > 1 else None, args, None)
        if re.match(r'(?:num::|num_bigint::)BigInt::(\w+)$', n):
            return self.numeric(st, f, t, 'BigInt', last, self.val(st, args[0]), self.val(st, args[1]) if len(args) > 1 else None, args, None)
        return None

    def retype(self, st, pv, ty, i):
        if pv is not None and pv[0] == 'o':
            pt = self.payty(ty, i)
            if pt:
                return self.typed(st, pv[1], pt)
        return pv

    def minmax(self, st, op, x, y):
        tm = self.icmp(st, 'le', x, y)
        out = []
        s2 = st.copy()
        a, b = (x, y) if op == 'min' else (y, x)
        if self.assume(st, tm, True):
            out.append((st, ('ret', ('int', a))))
        if self.assume(s2, tm, False):
            out.append((s2, ('ret', ('int', b))))
        return out

    def closure(self, st, f, t, cl, al, depth, callstack):
        gs = self.p.closure(cl[2][1])
        if len(gs) != 1 or depth >= self.MAXDEPTH:
            return None
        g = gs[0]
        if g.key in callstack:
            return None
        self.act += 1
        cell = (self.act, 0)
        st.mem[cell] = cl
        first = ('ref', cell, ()) if (g.types.get(g.args[0]) or '').startswith('&') else cl
        try:
            return self.run(g, [first] + al, st.copy(), depth + 1, callstack=callstack + (g.key,))
        except Limit:
            return None

    def optres(self, st, f, t, kind, n, last, args, depth, callstack):
        base = re.match(r'(?:std|core)::(?:option::Option|result::Result)(::<.*>)?::(\w+)', strip_turbofish(n))
        out = []
        R = lambda s, v: out.append((s, ('ret', v)))
        selfty = n
        v0 = args[0]
        cases = None
        def cs():
            r = []
            for s2, tag, pv in self.optcases(st, v0, kind):
                if pv is not None and pv[0] == 'o':
                    ga = self.payty(re.sub(r'^(?:std|core)::\w+::', '', selfty), 0 if tag in ('Some', 'Ok') else 1)
                    if ga:
                        pv = self.typed(s2, pv[1], ga)
                r.append((s2, tag, pv))
            return r
        good = ('Some', 'Ok')
        if last in ('unwrap', 'expect', 'unwrap_unchecked'):
            for s2, tag, pv in cs():
                if tag in good:
                    R(s2, pv)
                elif 'PoisonError' in (t.func or '') or 'PoisonError' in str(self.opty(f, t.args[0])):
                    continue              # a lock is poisoned only by an earlier abort
                else:
                    self.event(s2, 'unwrap', (last, self.dterm(s2, v0)), f, t.span)
                    out.append((s2, ('panic', last, (f.key, t.span))))
            return out
        if last in ('is_some', 'is_ok', 'is_none', 'is_err'):
            for s2, tag, pv in cs():
                R(s2, ('bool', (tag in good) == (last in ('is_some', 'is_ok'))))
            return out
        if last in ('unwrap_or', 'unwrap_or_default'):
            for s2, tag, pv in cs():
                if tag in good:
                    R(s2, pv)
                elif last == 'unwrap_or':
                    R(s2, args[1])
                else:
                    ty = f.types.get(t.dest.local) if not t.dest.proj else ''
                    R(s2, ('Vn',) if simple(ty) == 'Value' else num(0) if ty in RANGE else ('o', ('default', ty)))
            return out
        if last == 'unwrap_or_else':
            for s2, tag, pv in cs():
                if tag in good:
                    R(s2, pv)
                else:
                    r = self.closure(s2, f, t, self.val(s2, args[1]), [] if kind == 'Option' else [pv], depth, callstack) if self.isclosure(s2, args[1]) else None
                    if r is None:
                        R(s2, ('o', ('call', n, self.dterm(s2, v0))))
                    else:
                        out.extend(r)
            return out
        if last in ('map_or', 'map_or_else'):
            for s2, tag, pv in cs():
                if tag not in good and last == 'map_or':
                    R(s2, args[1])
                    continue
                if tag in good and self.isclosure(s2, args[2]):
                    r = self.closure(s2, f, t, self.val(s2, args[2]), [pv], depth, callstack)
                elif tag not in good and self.isclosure(s2, args[1]):
                    r = self.closure(s2, f, t, self.val(s2, args[1]), [] if kind == 'Option' else [pv], depth, callstack)
                else:
                    r = None
                if r is None:
                    ty = f.types.get(t.dest.local) if not t.dest.proj else None
                    R(s2, self.typed(s2, ('call', n, tag, self.dterm(s2, v0)), ty) if ty else ('o', ('call', n, tag, self.dterm(s2, v0))))
                else:
                    out.extend(r)
            return out
        if last in ('map', 'and_then', 'map_err', 'or_else'):
            for s2, tag, pv in cs():
                on = good if last in ('map', 'and_then') else ('Err', 'None')
                if tag not in on:
                    R(s2, ('agg', tag, kind, (pv,) if pv is not None else ()))
                    continue
                r = self.closure(s2, f, t, self.val(s2, args[1]), [pv] if pv is not None else [], depth, callstack) if self.isclosure(s2, args[1]) else None
                if r is None:
                    fv = self.val(s2, args[1])
                    if last in ('map', 'map_err'):
                        R(s2, ('agg', tag, kind, (('o', ('apply', term(fv), self.dterm(s2, pv) if pv is not None else None)),)))
                    else:
                        R(s2, ('o', ('apply', term(fv), self.dterm(s2, pv) if pv is not None else None)))
                    continue
                for s3, o in r:
                    if o[0] == 'ret' and last in ('map', 'map_err'):
                        out.append((s3, ('ret', ('agg', tag, kind, (o[1],)))))
                    else:
                        out.append((s3, o))
            return out
        if last in ('cloned', 'copied', 'as_ref', 'as_mut', 'as_deref', 'as_deref_mut'):
            for s2, tag, pv in cs():
                if pv is not None and last in ('cloned', 'copied'):
                    pv = self.val(s2, pv)
                R(s2, ('agg', tag, kind, (pv,) if pv is not None else ()))
            return out
        if last in ('ok_or', 'ok_or_else'):
            for s2, tag, pv in cs():
                R(s2, ('agg', 'Ok', 'Result', (pv,)) if tag == 'Some' else ('agg', 'Err', 'Result', (args[1] if last == 'ok_or' else ('o', ('errfn',)),)))
            return out
        if last in ('ok', 'err'):
            for s2, tag, pv in cs():
                R(s2, ('agg', 'Some', 'Option', (pv,)) if (tag == 'Ok') == (last == 'ok') else ('agg', 'None', 'Option', ()))
            return out
        return None

    def isclosure(self, st, v):
        v = self.val(st, v)
        return v[0] == 'agg' and isinstance(v[2], tuple) and v[2][0] == 'closure'

    BINAMES = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor', 'shl': 'Shl', 'shr': 'Shr'}
    def numeric(self, st, f, t, ty, op, x, y, args, trait):
        R = lambda v: [(st, ('ret', v))]
        isbig = ty == 'BigInt'
        if ty == 'f64':
            if op in self.BINAMES and y is not None:
                return R(('flt', (op, self.fterm(x), self.fterm(y))))
            if op == 'neg':
                return R(('flt', ('neg', self.fterm(x))))
            if op == 'partial_cmp':
                return R(('o', ('fcmp', self.fterm(x), self.fterm(y))))
            if op in ('is_zero',):
                return R(('bool', ('flt', 'eq', ('c', 0.0), self.fterm(x))))
            if op == 'to_f64':
                return R(('agg', 'Some', 'Option', (x,)))
            return None
        def num_of(v, tt=ty):
            if v is None:
                return None
            if v[0] == 'big':
                return v[1]
            if v[0] in ('int', 'bits'):
                return self.as_int(st, v, tt if tt in RANGE else None)
            if v[0] == 'o':
                return self.as_int(st, v, tt if tt in RANGE else None)
            return None
        ax = num_of(x)
        if ax is None:
            return None
        mk = (lambda e: ('big', e)) if isbig else (lambda e: ('int', e))
        def term_op(base, ay):
            e = self.exact(st, base, ax, ay)
            if e is None:
                e = asym((base.lower() if base[0].isupper() else base,) + (tuple(sorted((ax, ay), key=repr)) if base in ('BitAnd', 'BitOr', 'BitXor', 'Mul') else (ax, ay)))
                self.opbounds(st, base, ax, ay, e, None if base in ('Mul', 'Shl') or isbig else ty)
            return e
        mm = re.fullmatch(r'(checked|wrapping|overflowing|saturating)_(\w+)', op)
        if mm:
            b = self.BINAMES.get(mm.group(2))
            if mm.group(2) in ('neg', 'abs') and y is None:
                e = ascale(ax, -1) if mm.group(2) == 'neg' else None
                if e is None:
                    e = asym(('abs', ax))
                    self.opbounds(st, 'abs', ax, ax, e, None)
            elif b in ('Add', 'Sub', 'Mul'):
                e = term_op(b, num_of(y))
            elif mm.group(2) == 'pow' and y is not None:
                e = asym(('pow', ax, num_of(y, 'u32')))
                st.bounds.setdefault(e[1][0][0], (-INF, INF))
            elif b in ('Shl', 'Shr') and y is not None:
                # these look only at the shift amount, not at lost bits
                ay = num_of(y, 'u32')
                lo, hi = self.rng(st, ay)
                w = width(ty)
                e = term_op(b, ay)
                if mm.group(1) == 'checked':
                    out = []
                    s2 = st.copy()
                    if self.setrng(st, ay, 0, w - 1):
                        out.append((st, ('ret', ('agg', 'Some', 'Option', (self.maybe_wrap(st, f, t, b, e, ty),)))))
                    if hi >= w and self.setrng(s2, ay, w, INF):
                        out.append((s2, ('ret', ('agg', 'None', 'Option', ()))))
                    return out
                return None
            elif b in ('Div', 'Rem') and y is not None:
                ay = num_of(y)
                e = term_op(b, ay)
            else:
                return None
            r = RANGE[ty]
            lo, hi = self.rng(st, e)
            fits = r[0] <= lo and hi <= r[1]
            if mm.group(1) == 'checked':
                out = []
                zero = b in ('Div', 'Rem')
                if not fits or zero:
                    s2 = st.copy()
                    s2.guard('ovf', e)
                    if zero or self.outside(s2, e, r):
                        out.append((s2, ('ret', ('agg', 'None', 'Option', ()))))
                if fits or self.setrng(st, e, *r):
                    out.append((st, ('ret', ('agg', 'Some', 'Option', (('int', e),)))))
                return out
            if fits:
                v = ('int', e)
            else:
                self.event(st, 'wrap', (op, e, ty), f, t.span)
                w = (mm.group(1), ty, e)
                st.bounds[w] = r
                v = ('int', asym(w))
            if mm.group(1) == 'overflowing':
                return R(('agg', None, 'tuple', (v, ('bool', False if fits else ('ovf', term(v))))))
            return R(v)
        base = self.BINAMES.get(op)
        if op.endswith('_assign') and self.BINAMES.get(op[:-7]) and y is not None and args[0][0] == 'ref':
            b = self.BINAMES[op[:-7]]
            ay = num_of(y)
            if ay is None:
                return None
            if isbig:
                v = ('big', term_op(b, ay))
                outs = [(st, v)]
            else:
                return None
            res = []
            for s2, v in outs:
                self.store_ref(s2, args[0], v)
                res.append((s2, ('ret', ('agg', None, 'tuple', ()))))
            return res
        if base and y is not None:
            ay = num_of(y, ty if base not in ('Shl', 'Shr') else None)
            if ay is None:
                return None
            if base in ('Div', 'Rem'):
                bad = self.zerodiv(st, f, t, ay)
                if bad is not None:
                    outs = bad
                else:
                    outs = []
            else:
                outs = []
            if isbig:
                return outs + [(st, ('ret', ('big', term_op(base, ay))))]
            e = term_op(base, ay)
            return outs + [(st, ('ret', self.maybe_wrap(st, f, t, base, e, ty)))]
        if op in ('div_floor', 'mod_floor', 'div_ceil', 'div_rem', 'div_mod_floor', 'gcd', 'lcm', 'div_euclid', 'rem_euclid') and y is not None:
            ay = num_of(y)
            if ay is None:
                return None
            outs = []
            if op not in ('gcd', 'lcm'):
                outs = self.zerodiv(st, f, t, ay) or []
            if op in ('div_rem', 'div_mod_floor'):
                ds = []
                for o in (('Div', 'Rem') if op == 'div_rem' else ('div_floor', 'mod_floor')):
                    e = asym((o.lower(), ax, ay))
                    self.opbounds(st, o, ax, ay, e, None)
                    ds.append(mk(e) if isbig else self.maybe_wrap(st, f, t, o, e, ty))
                return outs + [(st, ('ret', ('agg', None, 'tuple', tuple(ds))))]
            e = asym((op, ax, ay))
            self.opbounds(st, op, ax, ay, e, None)
            if op not in ('div_floor', 'mod_floor'):
                st.bounds[e[1][0][0]] = (-INF, INF) if isbig or op == 'lcm' else RANGE[ty]
            return outs + [(st, ('ret', mk(e) if isbig else self.maybe_wrap(st, f, t, op, e, ty)))]
        if op == 'neg':
            e = ascale(ax, -1)
            return R(mk(e) if isbig else self.maybe_wrap(st, f, t, op, e, ty))
        if op == 'not' and isbig:
            return R(mk(aadd((-1, ()), ax, -1)))
        if op in ('abs', 'unsigned_abs'):
            lo, hi = self.rng(st, ax)
            if lo >= 0:
                return R(mk(ax))
            e = asym(('abs', ax))
            self.opbounds(st, 'abs', ax, ax, e, None)
            tt = 'u' + ty[1:] if op == 'unsigned_abs' else ty
            return R(mk(e) if isbig else self.maybe_wrap(st, f, t, op, e, tt))
        if op == 'pow':
            ay = num_of(y, 'u32') if y is not None else (0, ())
            e = asym(('pow', ax, ay))
            st.bounds.setdefault(e[1][0][0], (-INF, INF))
            return R(mk(e) if isbig else self.maybe_wrap(st, f, t, op, e, ty))
        if op in ('is_zero', 'is_negative', 'is_positive'):
            z = (0, ())
            return R(('bool', self.icmp(st, {'is_zero': 'eq', 'is_negative': 'lt', 'is_positive': 'gt'}[op], ax, z)))
        if op in ('cmp', 'partial_cmp') and y is not None:
            ay = num_of(y)
            if ay is None:
                return None
            v = ('o', ('icmp', aadd(ax, ay, -1)))
            return R(v if op == 'cmp' else ('agg', 'Some', 'Option', (v,)))
        if op in ('min', 'max') and y is not None and not isbig:
            return self.minmax(st, op, ax, num_of(y))
        m = re.fullmatch(r'to_([iu](?:8|16|32|64|128|size))', op)
        if m:
            r = RANGE[m.group(1)]
            lo, hi = self.rng(st, ax)
            if r[0] <= lo and hi <= r[1]:
                return R(('agg', 'Some', 'Option', (('int', ax),)))
            s2 = st.copy()
            out = []
            if self.setrng(st, ax, *r):
                out.append((st, ('ret', ('agg', 'Some', 'Option', (('int', ax),)))))
            s2.guard('notin', m.group(1), ax)
            if self.outside(s2, ax, r):
                out.append((s2, ('ret', ('agg', 'None', 'Option', ()))))
            return out
        if op == 'to_f64':
            return R(('agg', 'Some', 'Option', (('flt', ('i2f', ax)),)))
        if op == 'to_bigint':
            return R(('agg', 'Some', 'Option', (('big', ax),)))
        if op in ('is_even', 'is_odd'):
            return R(('bool', (op, ax)))
        if op in ('try_into', 'try_from'):
            return None
        if op in ('zero', 'one') and isbig:
            return None
        if op == 'from' and isbig:
            return R(('big', ax))
        return None

    def store_ref(self, st, ref, v):
        cell, path = ref[1], ref[2]
        st.mem[cell] = self.upd(st, st.mem.get(cell, ('o', ('local', cell[1]))), path, v)

    def maybe_wrap(self, st, f, t, base, e, ty):
        r = RANGE.get(ty)
        lo, hi = self.rng(st, e)
        if r is None or r[0] <= lo and hi <= r[1]:
            return ('int', e)
        self.event(st, 'wrap', (base, e, ty), f, t.span)
        w = ('wrap', ty, e)
        st.bounds[w] = r
        return ('int', asym(w))

    def zerodiv(self, st, f, t, ay):
        lo, hi = self.rng(st, ay)
        if lo > 0 or hi < 0:
            return None
        z = self.icmp(st, 'eq', ay, (0, ()))
        s2 = st.copy()
        out = []
        if self.assume(s2, z, True):
            self.event(s2, 'zerodiv', ay, f, t.span)
            out.append((s2, ('panic', 'division by zero', (f.key, t.span))))
        self.assume(st, z, False)
        return out

# ------------------------------------------------------------------ helpers
def const_value_of(p, g):
    from flow import eval_const
    return eval_const(p, g)

def term(v):
    k = v[0]
    if k == 'o':
        return v[1]
    if k in ('V',):
        return ('V', v[1])
    if k == 'int':
        return ('int', v[1])
    if k == 'agg':
        return ('agg', v[1], v[2] if isinstance(v[2], str) or v[2] is None else repr(v[2])) + tuple(term(x) for x in v[3])
    if k == 'ref':
        return ('ref', v[1], v[2])
    return v

def bnot(t):
    if isinstance(t, bool):
        return not t
    if t[0] == 'not':
        return t[1]
    return ('not', t)

def band(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return ('and', a, b)

def width(ty):
    m = re.search(r'(\d+|size)$', ty)
    return 64 if m.group(1) == 'size' else int(m.group(1))

def prod(a, b):
    if a == 0 or b == 0:
        return 0
    return a * b

def pow2(lo, hi):
    m = max(abs(lo), abs(hi) + 1)
    if m == INF:
        return (-INF, INF)
    k = 1
    while k < m:
        k *= 2
    return (-k, k - 1)

@lru_cache(maxsize=None)
def callee_last(n):
    if n.startswith('<'):
        n = split_qself(n)[2] or n
    segs = [x for x in path_segments(n) if not x.startswith('<')]
    return drop_generics(segs[-1]) if segs else n

def strip_turbofish(n):
    return re.sub(r'::<[^<>]*>$', '', n)

def canon(n):
    return re.sub(r"'\w+ ", '', n)
