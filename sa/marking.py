"""Which components of an object a `mark` function hands to the collector on every path (obligation analysis on access paths)."""
import re, os
from program import AnalysisError, simple, strip_ref, drop_generics, generic_args, split_qself, split_top, REPO, CRATES
from facts import deref_type, last_seg
from flow import defs as _defs, const_value
from mir import Term

class _D:
    def __init__(self, rv):
        self.rv = rv

def defs(f):
    c = getattr(f, '_mdefs', None)
    if c is None:
        c = {}
        for l, ds in _defs(f).items():
            for d in ds:
                if d[0] == 'arg':
                    c.setdefault(l, []).append(('arg', None))
                elif isinstance(d[2], Term):
                    c.setdefault(l, []).append(('call', d[2]))
                else:
                    c.setdefault(l, []).append(('assign', _D(d[2])))
        f._mdefs = c
    return c

TRANSPARENT = {'Box', 'Ref', 'Rc', 'Arc', 'RefCell', 'Cell', 'ManuallyDrop', 'Pin', 'NonNull', 'Unique', 'Option', 'Result', 'RefMut', 'LocalKey', 'MaybeUninit'}
SEQ = {'Vec', 'SmallVec', 'VecDeque', 'HashSet', 'IndexSet', 'BTreeSet', 'FxHashSet', 'FxIndexSet'}
MAP = {'HashMap', 'IndexMap', 'BTreeMap', 'FxHashMap', 'FxIndexMap'}
# library functions whose result gives access to everything the argument gives access to
FULL = {'iter', 'iter_mut', 'into_iter', 'deref', 'deref_mut', 'as_ref', 'as_mut', 'as_deref', 'as_deref_mut', 'as_slice', 'as_mut_slice', 'borrow', 'borrow_mut',
        'clone', 'cloned', 'copied', 'rev', 'enumerate', 'to_vec', 'into', 'from', 'by_ref', 'flatten', 'unwrap', 'expect', 'unwrap_unchecked', 'as_ptr', 'from_raw_parts',
        'get', 'to_owned', 'into_boxed_slice', 'chain'}
PICK = {'values': 'V', 'values_mut': 'V', 'into_values': 'V', 'keys': 'K', 'into_keys': 'K'}
FRAME = ('locals', 'self', 'block', 'outer')

def aliases(p):
    out = {}
    for d in CRATES.values():
        for root, _, fs in os.walk(os.path.join(REPO, d, 'src')):
            for f in fs:
                if f.endswith('.rs'):
                    for m in re.finditer(r'^\s*(?:pub(?:\([^)]*\))?\s+)?type\s+(\w+)(?:<[^=;]*>)?\s*=\s*([^;]+);', open(os.path.join(root, f)).read(), re.M):
                        out.setdefault(m.group(1), ' '.join(m.group(2).split()))
    return out

def payload(t):
    t = re.sub(r'\b\w+::', '', t)
    m = re.match(r'ManuallyDrop<(?:Box<)?(.*?)>+$', t)
    return m.group(1) if m else t

class Holders:
    """which types hold references to heap objects, and the components of a type that do"""
    def __init__(self, p, exempt):
        self.p, self.exempt, self.used = p, exempt, set()
        self.al = aliases(p)
        self.memo = {}
        self.gc = {}
        for f in p.fns:
            if f.trait == 'GC' and f.name == 'mark' and f.kind == 'fn' and not f.is_closure:
                self.gc[f.self_type] = f
        while True:
            self.changed = False
            self.seen = set()
            for t in list(self.memo):
                self.holds(t)
            for n in list(p.items):
                self.holds(n)
            if not self.changed:
                break
    def norm(self, t):
        t = strip_ref(t).strip()
        for _ in range(6):
            s = simple(t)
            if s in self.al and not self.items(s):
                t = strip_ref(self.al[s])
            else:
                break
        return t
    def items(self, s):
        return [i for i in self.p.items.get(s, []) if i.kind in ('struct', 'enum', 'union')]
    def parts(self, t):
        """component types of t (one level)"""
        t = self.norm(t)
        if t.startswith('('):
            return split_top(t[1:-1])
        if t.startswith('['):
            return [split_top(t[1:-1], ';')[0]]
        s = simple(t)
        its = self.items(s)
        out = list(generic_args(t))
        for it in its:
            if it.kind == 'enum':
                for vn, vf in it.variants:
                    out += [x[1] for x in vf]
            else:
                out += [ty for n, ty in it.fields if (s, n) not in self.exempt]
        return out
    def holds(self, t):
        t = self.norm(t)
        s = simple(t)
        if s == 'Value':
            return True
        if t.startswith(('fn(', 'fn ', 'for<', 'extern', 'unsafe')) or not t:
            return False
        if s in ('PhantomData', 'Allocator'):
            return False
        if t in self.memo and t in self.seen:
            return self.memo[t]
        self.seen.add(t)
        old = self.memo.get(t, False)
        self.memo[t] = old
        r = old or any(self.holds(x) for x in self.parts(t))
        if r != old:
            self.changed = True
        self.memo[t] = r
        return r
    def newtype(self, s):
        its = self.items(s)
        return len(its) >= 1 and its[0].kind == 'struct' and len(its[0].fields) == 1 and its[0].fields[0][0] in ('0',)
    def expand(self, path, t, force=False):
        """the obligations for a component of type t at path"""
        t = self.norm(t)
        s = simple(t)
        if not force and s in self.gc:
            return {path}
        if s == 'EnvFrame':
            return {path + (c,) for c in FRAME}
        if not self.holds(t):
            return set()
        if t.startswith('('):
            return set().union(*[self.expand(path + (str(i),), x) for i, x in enumerate(split_top(t[1:-1]))])
        if t.startswith('[') or s in SEQ or s == 'Value':
            return {path}
        ga = [x for x in generic_args(t) if not x.startswith("'")]
        if s in MAP:
            out = set()
            if ga and self.holds(ga[0]):
                out.add(path + ('K',))
            if len(ga) > 1 and self.holds(ga[1]):
                out.add(path + ('V',))
            return out
        if s in TRANSPARENT:
            return self.expand(path, ga[0]) if ga else {path}
        its = self.items(s)
        if s == 'ControlFrame' or not its or its[0].kind in ('enum', 'union'):
            return {path}
        if self.newtype(s):
            return self.expand(path, its[0].fields[0][1])
        out = set()
        for n, ty in its[0].fields:
            if (s, n) in self.exempt:
                self.used.add((s, n))
                continue
            out |= self.expand(path + (n,), ty)
        return out
    def variant(self, path, s, v):
        out = set()
        for it in self.items(s):
            if it.kind == 'enum':
                for vn, vf in it.variants:
                    if vn == v:
                        for i, x in enumerate(vf):
                            out |= self.expand(path + ('%s:%d' % (v, i),), x[1])
        return out
    def variants(self, s):
        for it in self.items(s):
            if it.kind == 'enum':
                return [vn for vn, _ in it.variants]
        return None

def tag_fields(p, kinds):
    """kind tag value -> {(union field, type)} from the functions that build an RValue; kinds: {value: name}"""
    un = [i for i in p.items.get('ObjKind', []) if i.kind == 'union']
    if not un:
        raise AnalysisError('payload union not found')
    ftype = {}
    for n, t in un[0].fields:
        ftype.setdefault(re.sub(r'\b\w+::', '', t), set()).add((n, t))
    ctor = {}
    for f in p.fns:
        if f.kind == 'fn':
            for b, i, s in f.stmts():
                if s.kind == 'assign' and s.rv.kind == 'agg' and s.rv.a == 'struct' and s.rv.text and simple(s.rv.text[0]) == 'ObjKind':
                    o = s.rv.ops[0]      # MIR does not name the active field of a union; its type does
                    ty = f.types.get(o.local, '') if o.local is not None else '()'
                    k = re.sub(r'\b\w+::', '', ty)
                    if k not in ftype:
                        raise AnalysisError('%s: payload of type %s' % (f.key, ty))
                    ctor.setdefault(f.key, set()).update(ftype[k])
    def sources(f, op, seen=()):
        if op.local is None or op.local in seen or op.place.proj:
            return []
        r = []
        for d in defs(f).get(op.local, []):
            if d[0] == 'call':
                r.append(d[1])
            elif d[0] == 'assign' and d[1].rv.kind in ('use', 'cast'):
                r += sources(f, d[1].rv.ops[0], seen + (op.local,))
        return r
    out, sites = {}, []
    for f in p.fns:
        if f.kind != 'fn':
            continue
        for b, t in f.calls():
            ko = [a for a in t.args if a.local is not None and simple(f.types.get(a.local, '')) == 'ObjKind']
            if len(ko) != 1 or not any(simple(f.types.get(t.dest.local, '')) == x for x in ('RValue',)):
                continue
            tags = {const_value(p, a, f.crate) for a in t.args if a.place is None and 'rvalue' in (a.path or '')}
            fl = set()
            for c in sources(f, ko[0]):
                for g in p.resolve(c.func, f.crate):
                    fl |= ctor.get(g.key, set())
            sites.append((f, t, tags, fl))
            for k in tags:
                if k is not None:
                    out.setdefault(k, set()).update(fl)
    return out, sites

class Marker:
    def __init__(self, p, H, kinds):
        self.p, self.H, self.kinds = p, H, kinds      # kinds: tag value -> set of union fields
        self.memo = {}
        self.stack = []
        self.calls = 0
        self.rec = {}
        self.statics = {}

    # ---------------------------------------------------------------- access paths
    def paths(self, f, bind, l, seen=frozenset()):
        key = (id(f), bind, l)
        if key in self.rec:
            return self.rec[key]
        if l in seen:
            return set()
        b = dict(bind)
        if l in b:
            r = set(b[l])
        elif simple(f.types.get(l, '')) == 'LocalKey':
            n = self.statics.get(strip_ref(f.types[l]))
            return {('static', n)} if n else set()
        else:
            r = set()
            for d in defs(f).get(l, []):
                r |= self.def_paths(f, bind, d, seen | {l})
        t = f.types.get(l, '')
        r = {self.fix(x, t) for x in r}
        if not seen:
            self.rec[key] = r
        return r
    def fix(self, x, t):
        ts = simple(t)
        if ts == 'Option':
            g = generic_args(t)
            ts = simple(g[0]) if g else ts
        if ts == 'ControlFrame' and (not x or x[-1] != '#'):
            return x + ('#',)
        return x
    def place_paths(self, f, bind, pl, seen=frozenset()):
        b = dict(bind)
        proj = list(pl.proj)
        t = f.types.get(pl.local, '')
        var = None
        # captured variables of a closure
        if f.is_closure and pl.local == 1 and ('env' in b):
            i = 0
            while i < len(proj) and proj[i] == '*':
                i += 1
            if i < len(proj) and proj[i][0] == 'f':
                e = dict(b['env'])
                cur = set(e.get(proj[i][1], ()))
                t = proj[i][2]
                proj = proj[i + 1:]
            else:
                return set()
        else:
            cur = self.paths(f, bind, pl.local, seen)
        for x in proj:
            if x == '*':
                t = deref_type(t)
                var = None
            elif x[0] == 'as':
                var = x[1]
            elif x[0] == 'f':
                s = simple(t)
                if var is not None:
                    if s not in ('Option', 'Result', 'ControlFlow'):
                        cur = {c + ('%s:%d' % (var, x[1]),) for c in cur}
                elif self.H.norm(t).startswith('('):
                    cur = {c + (str(x[1]),) for c in cur}
                elif s in TRANSPARENT or self.H.newtype(s):
                    pass
                else:
                    its = [i for i in self.H.items(s) if i.kind != 'enum' and x[1] < len(i.fields)]
                    nm = its[0].fields[x[1]][0] if its else str(x[1])
                    if its and its[0].kind == 'union':      # overlapping fields of one type are the same component
                        nm = payload(its[0].fields[x[1]][1])
                    cur = {c + (nm,) for c in cur}
                t = x[2]
                var = None
            else:
                s = simple(t)
                if s in ('EnvFrame', 'ControlFrame', 'LocalFrame'):
                    cur = set()
                else:
                    cur = set()       # a single element is not the collection
                m = re.match(r'(?:\[(.*?)(?:; .*)?\]$)|(?:.*Vec<(.*)>$)', t)
                t = (m.group(1) or m.group(2)) if m else ''
                var = None
            cur = {self.fix(c, t) for c in cur}
        return cur
    def op_paths(self, f, bind, op, seen=frozenset()):
        if op.place is None:
            return set()
        return self.place_paths(f, bind, op.place, seen)
    def def_paths(self, f, bind, d, seen):
        if d[0] == 'call':
            return self.call_paths(f, bind, d[-1], seen)
        if d[0] != 'assign':
            return set()
        rv = d[-1].rv
        if rv.kind in ('use', 'ref', 'addr', 'cast'):
            return self.op_paths(f, bind, rv.ops[0], seen)
        if rv.kind == 'agg' and rv.a == 'variant' and not rv.ops and last_seg(rv.text) == 'None':
            return {('?none',)}
        if rv.kind == 'agg' and rv.a == 'variant' and len(rv.ops) == 1 and last_seg(rv.text) in ('Some', 'Ok'):
            return self.op_paths(f, bind, rv.ops[0], seen)
        if rv.kind == 'agg' and rv.a == 'variant' and len(rv.ops) == 1 and self.H.newtype(last_seg(rv.text)):
            return self.op_paths(f, bind, rv.ops[0], seen)
        if rv.kind == 'agg' and rv.a == 'struct' and len(rv.ops) == 1:
            return self.op_paths(f, bind, rv.ops[0], seen)
        return set()
    def call_paths(self, f, bind, t, seen):
        if not t.func or not t.args:
            return set()
        n = last_seg(t.func)
        a0 = self.op_paths(f, bind, t.args[0], seen)
        ty0 = simple(f.types.get(t.args[0].local, '')) if t.args[0].local is not None else ''
        tgt = self.p.resolve(t.func, f.crate)
        if tgt and tgt[0].self_type in ('EnvFrame', 'ControlFrame', 'CF') or ty0 in ('EnvFrame', 'ControlFrame'):
            e = {'locals': 'locals', 'outer': 'outer', 'self_value': 'self', 'block': 'block', 'frame': '@frame'}.get(n)
            if n == 'ep':
                return {c + ('ep',) for c in a0}
            if e:
                return {c + (e,) for c in a0}
            if n in ('prev', 'as_ptr', 'as_ep', 'clone', 'as_cfp'):
                return a0
            if n in ('index', 'deref') and len(t.args) > 1:
                v = const_value(self.p, t.args[1], f.crate)
                e = {-1: 'self', 7: 'block', 4: 'outer'}.get(v)
                return {c + (e,) for c in a0} if e else set()
            if tgt:
                return set()
        if n == 'check_boundary':
            a1 = self.op_paths(f, bind, t.args[-1], seen)
            return {c + ('@instack',) for c in a1}
        if n == 'next' and not any(g.self_type and g.trait is None for g in tgt):
            return {c + ('#',) for c in a0}
        if n in ('as_rvalue', 'rvalue') and tgt and tgt[0].self_type == 'Value':
            return a0
        if tgt:
            out = set()
            for g in tgt:
                if g.self_type in ('RubyStack',) and n == 'iter' or (n in ('iter', 'into_iter', 'iter_mut') and self.H.variants(g.self_type or '') is not None) \
                        or (n in ('into_iter', 'iter') and g.trait == 'IntoIterator'):
                    out |= a0
                    continue
                if g.key in self.stack or len(self.stack) > 12:
                    continue
                b = self.bind_call(f, bind, t, g, seen)
                self.stack.append(g.key)
                out |= self.paths(g, b, 0)
                self.stack.pop()
            return out
        if n in PICK:
            return {c + (PICK[n],) for c in a0}
        if n == 'chain':
            return set()
        if n in FULL:
            return a0
        return set()
    def bind_call(self, f, bind, t, g, seen=frozenset(), env=None):
        b = {}
        for i, a in enumerate(t.args):
            if i < len(g.args):
                pp = self.op_paths(f, bind, a, seen)
                if pp:
                    b[g.args[i]] = frozenset(pp)
        return frozenset(b.items())

    # ---------------------------------------------------------------- obligations
    def residual(self, g, bind, obl):
        """obligations that remain undischarged on some return path of g -> (set, may return)"""
        key = (g.key, bind, frozenset(obl))
        if key in self.memo:
            return self.memo[key]
        if g.key in self.stack:
            return set(obl)
        self.memo[key] = set(obl)
        self.stack.append(g.key)
        IN = {0: (frozenset(obl))}
        work = [0]
        res = set()
        returned = False
        while work:
            b = work.pop()
            cur = set(IN[b])
            t = g.blocks[b].term
            outs = []
            if t.kind == 'call':
                cur = self.do_call(g, bind, t, cur)
                outs = [(s, cur) for s in t.succ]
            elif t.kind == 'switch':
                outs = self.do_switch(g, bind, b, t, cur)
            elif t.kind == 'return':
                returned = True
                res |= cur
            else:
                outs = [(s, cur) for s in t.succ]
            for s, o in outs:
                n = frozenset(o) | IN.get(s, frozenset())
                if s not in IN or n != IN[s]:
                    IN[s] = n
                    work.append(s)
        self.stack.pop()
        self.memo[key] = res
        return res

    @staticmethod
    def drop(cur, path):
        n = len(path)
        if path and path[-1] == '@frame':
            e = path[:-1]
            return {o for o in cur if o not in (e + ('locals',), e + ('self',))}
        return {o for o in cur if o[:n] != path}
    def drop_all(self, cur, pp):
        if len(pp) == 1:
            return self.drop(cur, next(iter(pp)))
        return cur

    def do_call(self, g, bind, t, cur):
        if not t.func:
            return cur
        n = last_seg(t.func)
        tgt = self.p.resolve(t.func, g.crate)
        if n == 'mark' and (' as alloc::GC<' in t.func or 'as GC<' in t.func or any(x.trait == 'GC' for x in tgt)):
            pp = self.op_paths(g, bind, t.args[0])
            self.calls += 1
            if len(pp) == 1 and next(iter(pp)) == ('self',):
                if tgt and tgt[0].key == self.root_key:
                    return cur
            return self.drop_all(cur, pp)
        clos = []
        for a in t.args:
            ty = g.types.get(a.local, '') if a.local is not None else (a.text or '')
            for c in self.p.closure(ty):
                clos.append((c, a))
        if clos:
            for c, a in clos:
                env = self.closure_env(g, bind, a)
                if n in ('for_each', 'map', 'inspect', 'with', 'if_some', 'iter', 'map_or', 'map_or_else', 'and_then', 'is_some_and'):
                    pp = self.op_paths(g, bind, t.args[0])
                    if len(pp) != 1:
                        continue
                    c0 = next(iter(pp))
                    if n == 'with':
                        item = c0
                        init = set(cur)
                    else:
                        opt = simple(g.types.get(t.args[0].local, '')) == 'Option'
                        item = c0 if opt else c0 + ('#',)
                        init = self.H.expand(item, c.types[c.args[1]]) if len(c.args) > 1 else {item}
                        if not init:
                            init = {item}
                    b = {'env': env}
                    if len(c.args) > 1:
                        b[c.args[1]] = frozenset({item})
                    left = self.residual(c, frozenset(b.items()), init)
                    if n == 'with':
                        cur = left
                    elif not left:
                        cur = self.drop(cur, c0)
            return cur
        out = None
        for x in tgt:
            if x.kind != 'fn' or not x.blocks:
                continue
            if x.trait in ('Deref', 'Iterator', 'IntoIterator', 'Clone', 'Drop', 'PartialEq', 'Index') or x.name in ('gc_check_and_mark', 'check_boundary', 'kind', 'as_rvalue'):
                out = set(cur) if out is None else out | cur
                continue
            b = self.bind_call(g, bind, t, x)
            r = self.residual(x, b, cur) if (b or any(o[0] == 'static' for o in cur)) else cur
            out = set(r) if out is None else out | r
        return cur if out is None else out

    def closure_env(self, g, bind, a):
        e = {}
        for d in defs(g).get(a.local, []) if a.local is not None else []:
            if d[0] == 'assign' and d[-1].rv.kind == 'agg' and d[-1].rv.a == 'closure':
                for i, o in enumerate(d[-1].rv.ops):
                    pp = self.op_paths(g, bind, o)
                    if pp:
                        e[i] = frozenset(pp)
        return frozenset(e.items())

    def one_def(self, f, l):
        d = defs(f).get(l, [])
        return d[0] if len(d) == 1 else None

    def do_switch(self, g, bind, b, t, cur):
        outs = []
        op = t.op
        d = self.one_def(g, op.local) if op.local is not None and not op.place.proj else None
        neg = False
        while d is not None and d[0] == 'assign' and (d[-1].rv.kind == 'use' or (d[-1].rv.kind == 'un' and d[-1].rv.a == 'Not')) and d[-1].rv.ops[0].local is not None \
                and not d[-1].rv.ops[0].place.proj:
            neg ^= d[-1].rv.kind == 'un'
            d = self.one_def(g, d[-1].rv.ops[0].local)
        if d is None:
            return [(s, cur) for s in t.succ]
        listed = [v for v, _ in t.targets if v is not None]
        if d[0] == 'assign' and d[-1].rv.kind == 'discr':
            pl = d[-1].rv.ops[0].place
            pp = self.place_paths(g, bind, pl)
            from facts import place_type
            ty = place_type(self.p, g, pl)
            return self.switch_enum(g, t, cur, pp, self.H.norm(ty), listed)
        if d[0] == 'call':
            c = d[-1]
            n = last_seg(c.func)
            def edges(true_set, false_set):
                for v, s in t.targets:
                    truth = (v is None and 0 in listed) or (v is not None and v != 0)
                    outs.append((s, true_set if truth != neg else false_set))
                return outs
            if n == 'gc_check_and_mark':
                pp = self.op_paths(g, bind, c.args[-1])
                return edges(set() if pp == {('self',)} else cur, cur)
            if n == 'is_ruby_func':
                pp = self.op_paths(g, bind, c.args[0])
                nat = set(cur)
                for x in pp:      # a native frame has no captured environment, and its own slots are on the stack
                    if x[-1] == '#':
                        nat = self.drop(nat, x)
                    else:
                        nat = {o for o in nat if o not in (x + ('outer',), x + ('block',))}
                return edges(cur, nat)
            if n in ('is_none', 'is_some'):
                pp = self.op_paths(g, bind, c.args[0])
                some, none = self.opt_edges(cur, pp)
                return edges(none, some) if n == 'is_none' else edges(some, none)
            if n in ('eq', 'ne'):
                pp = self.op_paths(g, bind, c.args[0])
                v = self.promoted_variant(g, c.args[1])
                if v is not None and len(pp) == 1:
                    x = next(iter(pp))
                    yes = self.tagged(cur, x, v)
                    return edges(yes, cur) if n == 'eq' else edges(cur, yes)
            if n in ('is_empty',):
                pp = self.op_paths(g, bind, c.args[0])
                return edges(self.drop_all(cur, pp), cur)
            if n in ('kind', 'kind_or_none') and self.op_paths(g, bind, c.args[0]):
                r = next(iter(self.op_paths(g, bind, c.args[0])))
                k = r + ('kind',)
                if k in cur:
                    rest = cur - {k}
                    holders = {v: set().union(*[self.H.expand(k + (payload(ft),), ft) for fl, ft in fs]) for v, fs in self.kinds.items()}
                    for v, s in t.targets:
                        if v is not None:
                            outs.append((s, rest | holders.get(v, set())))
                        else:
                            left = [h for w, h in holders.items() if w not in listed and h]
                            outs.append((s, cur if left else rest))
                    return outs
        return [(s, cur) for s in t.succ]

    def promoted_variant(self, g, a):
        """variant name of a constant enum operand (a promoted, or a local holding one)"""
        from flow import find_const
        seen = 0
        op = a
        while op is not None and seen < 6:
            seen += 1
            if op.place is not None:
                d = self.one_def(g, op.local)
                if d is None or d[0] != 'assign':
                    return None
                if d[-1].rv.kind == 'agg' and d[-1].rv.a == 'variant':
                    return last_seg(d[-1].rv.text)
                op = d[-1].rv.ops[0] if d[-1].rv.ops else None
                continue
            txt = op.path or op.text or ''
            m = re.search(r'promoted\[(\d+)\]', txt)
            if m:
                h = '%s#promoted[%s]' % (g.header, m.group(1))
                for f in self.p.fns:
                    if f.kind == 'promoted' and f.header == h:
                        for _, _, s in f.stmts():
                            if s.kind == 'assign' and s.rv.kind == 'agg' and s.rv.a == 'variant':
                                return last_seg(s.rv.text)
                        for _, _, s in f.stmts():
                            if s.kind == 'assign' and s.rv.ops and s.rv.ops[0].place is None:
                                return last_seg(s.rv.ops[0].path or s.rv.ops[0].text)
            return last_seg(txt) or None
        return None

    def tagged(self, cur, x, v):
        """what a known value of a state component excuses"""
        if x[-1] == 'state' and v == 'Dead':
            return self.drop(cur, x[:-1] + ('vm',))
        return cur

    def opt_edges(self, cur, pp):
        if len(pp) == 1:
            x = next(iter(pp))
            if x and x[-1] == '@instack':
                e = x[:-1]
                return {o for o in cur if o not in (e + ('locals',), e + ('self',), e + ('block',))}, cur
            return cur, self.drop(cur, x)
        return cur, cur

    def switch_enum(self, g, t, cur, pp, ty, listed):
        outs = []
        s0 = simple(ty)
        if len(pp) != 1:
            return [(s, cur) for s in t.succ]
        x = next(iter(pp))
        if s0 == 'Option':
            it = generic_args(ty)[0] if generic_args(ty) else ''
            some, none = self.opt_edges(cur, pp)
            if x[-1] == '#':        # result of an iteration step: absent means everything was seen, present opens one element
                n = len(x) - 1
                none = {o for o in cur if o[:n] != x[:-1] or '#' in o[n:]}
                if simple(it) == 'ControlFrame':
                    some = cur | {x + ('ep', c) for c in FRAME}
                else:
                    some = cur | self.H.expand(x, it)
            for v, s in t.targets:
                if v == 0:
                    outs.append((s, none))
                elif v == 1:
                    outs.append((s, some))
                else:
                    outs.append((s, some if 1 not in listed and 0 in listed else none if 0 not in listed and 1 in listed else cur))
            return outs
        vs = self.H.variants(s0)
        if vs is None:
            return [(s, cur) for s in t.succ]
        for v, s in t.targets:
            if v is not None:
                if v >= len(vs):
                    outs.append((s, cur))
                    continue
                o = set(cur)
                if x in o:
                    o.discard(x)
                    o |= self.H.variant(x, s0, vs[v])
                outs.append((s, self.tagged(o, x, vs[v])))
            else:
                rest = [w for i, w in enumerate(vs) if i not in listed]
                o = set(cur)
                if x in o and not any(self.H.variant(x, s0, w) for w in rest):
                    o.discard(x)
                if len(rest) == 1:
                    if x in o:
                        o.discard(x)
                        o |= self.H.variant(x, s0, rest[0])
                    o = self.tagged(o, x, rest[0])
                outs.append((s, o))
        return outs
