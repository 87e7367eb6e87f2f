"""Hash/equality agreement. For every pair of an equality used for hash keys and the hash function used with it (HashKey, IdentKey, Value
per kind of object, and each payload type they delegate to) both functions are interpreted abstractly on MIR: every path of the equality
that can answer true, and every path of the hash function. Obligation: each component the hash function feeds to the hasher is forced to be
equal (by a relation at least as fine as that component's hash) on every true path of the equality, or both objects are identical.
Containers: sequence elements must be compared by eql?; entries of unordered tables must be hashed independently of their order, and their
values compared by eql? where their hash is used. Strings: the choice of representation must not enter equality or hash."""
import re
import absint
from absint import Interp, St, Limit, term, asym
from program import AnalysisError, simple, generic_args
from flow import origin, defs

NAMES = ('hash', 'eq', 'ne', 'eql')
ATOM = re.compile(r'^(?:[ui](?:8|16|32|64|128|size)|bool|char|str|(?:\w+::)*String|(?:\w+::)*BigInt|(?:\w+::)*NonZero(?:<u64>|U64|U32|<u32>)|\(\)|(?:\w+::)*SmallString(?:<.*>)?|(?:\w+::)*ArrayString<.*>|(?:\w+::)*Discriminant<.*>)$')
TABLES = re.compile(r'\b(?:IndexMap|IndexSet|HashMap|HashSet|FxIndexMap|FxHashMap)(?:::)?<')

def norm(t):
    t = re.sub(r"'\w+ ?", '', t or '').strip()
    while True:
        n = re.sub(r'^&(?:mut )?', '', t).strip()
        m = re.match(r'^(?:\w+::)*(?:ManuallyDrop|Box)<(.*)>$', n)
        n = m.group(1) if m else n
        if n == t:
            return t
        t = n

def qself(fname):
    m = re.match(r'^<(.*?) as (?:[\w:]+::)?(?:Hash|PartialEq)(?:<.*>)?>::(\w+)', fname)
    if m:
        return norm(m.group(1)), m.group(2)
    m = re.match(r'^(?:(.*)::)?(\w+)(?:::<.*>)?$', fname)
    return (norm(m.group(1) or ''), m.group(2)) if m else ('', fname)

def subst(t, old, new):
    if t == old:
        return new
    if isinstance(t, tuple):
        return tuple(subst(x, old, new) for x in t)
    return t

class Agree(Interp):
    def __init__(self, p, roots):
        super().__init__(p)
        self.roots = roots          # functions always followed
        self.objs = ()
    def inline(self, g, depth):
        return True
    def hook(self, st, f, t, g, args, fname):
        if fname.endswith('::fmt'):
            return None
        m = re.search(r'::(hash|eq|ne|eql)(?:::<.*>)?$', fname)
        if not m:
            m2 = re.search(r'::hash_slice(?:::<.*>)?$', fname)
            if not m2:
                return None
        if g is not None and g.kind == 'fn':
            v = self.val(st, args[0])
            if g.self_type in ('RValue', 'HashKey', 'Value', 'IdentKey') and self.is_root(v):
                return None
        n = m.group(1) if m else 'hash'
        ts = tuple(term(self.val(st, a)) for a in args)
        if n == 'hash':
            st.effects = st.effects + (('hash', fname, ts[0], term(self.val(st, args[1])) if len(args) > 1 else None, (f.key, t.span)),)
            return [(st, ('ret', ('agg', None, 'tuple', ())))]
        b = ('rel', fname) + ts[:2]
        return [(st, ('ret', ('bool', ('not', b) if n == 'ne' else b)))]
    def is_root(self, v):
        """v is one of the two objects compared (as a Value, its heap object, or its key wrapper)"""
        if v[0] == 'rv':
            v = v[1]
        if v[0] == 'agg' and len(v[3]) == 1:
            v = v[3][0]
        return v in self.objs

class Check:
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.p
        self.done, self.todo = set(), []
        self.kinds = None
    def fn(self, ty, names, trait=None):
        r = [f for f in self.p.fns if f.kind == 'fn' and f.self_type == ty and f.name in names and (trait is None or f.trait == trait) and '{closure' not in f.key]
        return r[0] if len(r) == 1 else None
    # ------------------------------------------------------------ relations against hashes
    def compat(self, rel, ty, hty, why):
        """is `rel` on ty at least as fine as the hash of hty? -> None or complaint"""
        ty, hty = norm(ty), norm(hty)
        if simple(ty) in ('Value', 'HashKey', 'IdentKey') or simple(hty) in ('Value', 'HashKey', 'IdentKey'):
            a, b = simple(ty), simple(hty)
            if a == 'Value' and rel == 'eq' and b != 'IdentKey':
                return 'is compared with ==, which also holds for 1 and 1.0, whose hashes differ'
            if (a == 'IdentKey') != (b == 'IdentKey') and b == 'IdentKey':
                return 'is compared by content but hashed by identity'
            if a == 'Value' and b in ('Value', 'HashKey') or a == b or a == 'HashKey' and b == 'Value':
                self.pair(a, rel if a == 'Value' else 'eq')
                return None
            return None if a == 'IdentKey' else 'is compared as %s but hashed as %s' % (ty, hty)
        if ty != hty and simple(ty) != simple(hty):
            return 'is compared as %s but hashed as %s' % (ty, hty)
        if ATOM.match(ty):
            return None
        if ty in ('f64', 'f32'):
            return 'is a float'
        m = re.match(r'^\[(.*?)(?:; .*)?\]$', ty)
        if m:
            return self.compat('eq', m.group(1), m.group(1), why)
        if simple(ty) in ('Vec', 'SmallVec', 'Option', 'Rc', 'Arc', 'Cow', 'VecDeque', 'Result') or ty.startswith('('):
            for g in generic_args(ty) if not ty.startswith('(') else re.split(r',\s*', ty.strip('()')):
                if g.startswith("'"):
                    continue
                r = self.compat('eq', g, g, why)
                if r:
                    return r
            return None
        if simple(ty) in self.p.items:
            self.pair(simple(ty), rel)
            return None
        return 'has type %s, for which no rule is known' % ty
    def pair(self, ty, rel):
        if (ty, rel) not in self.done:
            self.done.add((ty, rel))
            self.todo.append((ty, rel))
    # ------------------------------------------------------------ evidence on one true path
    def covered(self, it, st, h, a, b, eqf, depth=0, comps=()):
        """the component of effect h is forced equal on this path -> None, or complaint"""
        _, hname, ht, _, _ = h
        hty = qself(hname)[0]
        A, B = a[1], b[1]
        other = subst(ht, A, B)
        if ht == other:
            return None                                            # a constant
        va, vb = self.value(ht), self.value(other)
        if va is not None and vb is not None:
            lo, hi = it.rng(st, absint.aadd(va, vb, -1))
            if lo == hi == 0:
                return None
        if isinstance(ht, tuple) and ht[0] in ('bool', 'Vb') and len(ht) == 2:
            x, y = st.facts.get(('b', ht[1])), st.facts.get(('b', other[1]))
            if x is not None and x == y:
                return None
        complaint = None
        true = [k[1] for k, v in st.facts.items() if isinstance(k, tuple) and k[0] == 'b' and v is True]
        if ht[0] == 'disc' and any(r[0] == 'eq' and {r[1][:2], r[2][:2]} == {ht[:2], other[:2]} for r in true if len(r) == 3 and isinstance(r[1], tuple) and isinstance(r[2], tuple)):
            return None
        mine, seen = self.variants(ht), {}
        for r in true:
            for x, v in self.variants(r):
                seen.setdefault(x, v)
        if any(seen.get(x, v) != v for x, v in mine):
            return None                                            # another variant than the one hashed here
        for k, v in list(st.facts.items()):
            if not (isinstance(k, tuple) and k[0] == 'b' and v is True):
                continue
            r = k[1]
            if r[0] == 'rel':
                alts = [subst(t, A, B) for n2, t in comps if n2 == hname]     # what the other object feeds in this place
                if ht in r[2:4] and any(x in r[2:4] for x in alts) or {r[2], r[3]} == {ht, other} or {self.peel(r[2]), self.peel(r[3])} == {self.peel(ht), self.peel(other)}:
                    ty, rel = qself(r[1])
                    c = self.compat('eql' if rel == 'eql' else 'eq', ty, hty, eqf)
                    if c is None:
                        return None
                    complaint = c
            elif r[0] == 'flt' and r[1] == 'eq' and 'to_bits' in repr(ht):
                x = subst(('fl', A), A, B)
                if {r[2], r[3]} == {('fl', A), x}:
                    self.ctx.assume('a heap Float never holds 0.0 (Value::float packs it), so heap floats that compare == have the same bits')
                    return None
            elif r[0] in ('beq', 'eq', 'disc_eq') and {r[1], r[2]} == {ht, other}:
                return None
            elif r[0] == 'call' and not ATOM.match(hty) and re.search(r'::(?:all|eq)::<', r[1]) and self.mentions(r, ht) and self.mentions(r, other):
                c = self.elements(r, hty, eqf)
                if c is None:
                    return None
                complaint = c
        if complaint is None and simple(hty) == 'Option':
            x = ('fld', ('as', ht, 'Some'), 0)
            y = subst(x, A, B)
            if self.identical(it, st, ('V', x), ('V', y)):
                return None
        if complaint is None and depth < 3 and simple(hty) in self.p.items and self.peel(ht) not in (A, A[:1]):
            hf = self.fn(simple(hty), ('hash',), 'Hash')
            if hf is not None:
                sub = Agree(self.p, {hf.key})
                try:
                    outs = sub.run(hf, [('o', ('&', ht)), ('o', ('state',))], St())
                except Limit as e:
                    outs = []
                parts = {(e[1], e[2]): e for s, o in outs for e in s.effects if e[0] == 'hash'}
                if parts and all(k[1] != ht for k in parts):
                    cs = [(self.label(e[2]), self.covered(it, st, e, a, b, eqf, depth + 1)) for e in parts.values()]
                    cs = [c for c in cs if c[1] is not None]
                    if not cs:
                        return None
                    complaint = 'in its part %s %s' % cs[0]
        if complaint is None and hty.startswith('['):
            c = self.loop_elements(eqf, hty)
            if c is None:
                return None
            complaint = c
        return complaint or 'is not compared'
    def variants(self, t):
        if not isinstance(t, tuple):
            return set()
        r = {(t[1], t[2])} if len(t) == 3 and t[0] == 'as' and isinstance(t[2], str) else set()
        for y in t:
            r |= self.variants(y)
        return r
    def peel(self, t):
        """drop derefs, references and smart-pointer wrappers"""
        while isinstance(t, tuple) and t and t[0] in ('&', '*', 'deref') and len(t) == 2:
            t = t[1]
        return t
    def value(self, t):
        if isinstance(t, tuple) and len(t) == 2 and t[0] in ('int', 'bits'):
            return t[1]
        if isinstance(t, tuple) and t and t[0] == 'raw':
            return asym(t)
        return None
    def mentions(self, t, x):
        x = self.peel(x)
        if t == x:
            return True
        if isinstance(x, tuple) and x and x[0] == 'fld' and t == x[1]:
            return True
        return isinstance(t, tuple) and any(self.mentions(y, x) for y in t)
    def elements(self, r, hty, eqf):
        """`xs.zip(ys).all(closure)`: closure must answer true only for eql? elements"""
        m = re.search(r'\{closure@([^}]*?)\}', r[1])
        if not m:
            return 'elements are compared by %s' % r[1].split('::<')[0][-60:]
        loc = m.group(1)
        cs = [f for f in self.p.fns if '{closure' in f.key and f.args and loc in f.types[f.args[0]] and len(f.args) >= 2]
        if len(cs) != 1:
            raise AnalysisError('closure at %s not found' % loc)
        cf = cs[0]
        it = Agree(self.p, {cf.key})
        a, b = ('V', ('x',)), ('V', ('y',))
        it.objs = ()
        st = St()
        st.mem[('c', 'x')], st.mem[('c', 'y')] = a, b
        rx, ry = ('ref', ('c', 'x'), ()), ('ref', ('c', 'y'), ())
        args = [('o', ('env',)), ('agg', None, 'tuple', (rx, ry))] if len(cf.args) == 2 else [('o', ('env',)), rx, ry]
        try:
            outs = it.run(cf, args, st)
        except Limit as e:
            raise AnalysisError('closure at %s: %s' % (loc, e))
        for s, o in outs:
            for s2 in self.true_path(it, s, o):
                if self.identical(it, s2, a, b):
                    continue
                done = False
                own = [k[1] for k, v in s2.facts.items() if k[0] == 'b' and v is True and k[1][0] == 'ieq']
                if any(self.mentions(t, ('x',)) and self.mentions(t, ('env',)) for t in own) and any(self.mentions(t, ('y',)) and self.mentions(t, ('env',)) for t in own):
                    continue                                        # each element is its own container
                why = 'elements are not compared on one path of the comparison'
                for k, v in s2.facts.items():
                    if k[0] == 'b' and v is True and k[1][0] == 'rel' and {self.peel(k[1][2]), self.peel(k[1][3])} == {term(a), term(b)}:
                        ty, rel = qself(k[1][1])
                        c = self.compat('eql' if rel == 'eql' else 'eq', ty, 'Value', eqf)
                        if c is None:
                            done = True
                        else:
                            why = 'element ' + c
                if not done:
                    return why
        self.ctx.ok('element comparisons', cf.key)
        return None
    def loop_elements(self, eqf, hty):
        """element comparison written as a loop: every comparison of Values made by the function must be eql?"""
        rels = self.relations(eqf)
        if not rels:
            return 'is not compared'
        for rel, ty in rels:
            c = self.compat(rel, ty, 'Value', eqf)
            if c:
                return 'elements: ' + c
        return None
    def family(self, f):
        return [g for g in self.p.fns if g.key == f.key or g.key.startswith(f.key + '::{closure')]
    def relations(self, f):
        out = set()
        for g in self.family(f):
            for b, t in g.calls():
                n = t.func or ''
                if re.search(r'::(eq|ne|eql)(?:::<.*>)?$', n):
                    ty, rel = qself(n)
                    if simple(ty) in ('Value', 'HashKey', 'IdentKey'):
                        out.add(('eql' if rel == 'eql' else 'eq', simple(ty)))
        return out
    def true_path(self, it, st, o):
        if o[0] != 'ret':
            return []
        v = o[1]
        if v[0] in ('bool', 'Vb'):
            s = st.copy()
            return [s] if it.assume(s, v[1], True) else []
        if v[0] == 'o':
            s = st.copy()
            s.facts[('b', v[1])] = True
            return [s]
        return []
    def identical(self, it, st, a, b):
        for x, y in ((('raw', a), ('raw', b)), (a, b)):
            lo, hi = it.rng(st, absint.aadd(asym(x), asym(y), -1))
            if lo == hi == 0:
                return True
        return any(k[0] == 'b' and v is True and k[1][0] == 'ieq' and self.only_raw(k[1][1], a, b) for k, v in st.facts.items() if isinstance(k, tuple))
    def only_raw(self, e, a, b):
        c, ts = e
        syms = {t for t, n in ts}
        return c == 0 and len(ts) == 2 and {n for t, n in ts} == {1, -1} and any(t[-1] == a or t == ('raw', a) for t in syms) and any(t[-1] == b or t == ('raw', b) for t in syms)
    # ------------------------------------------------------------ one pair of functions
    def object_pair(self, ty, eqf, hf, wrap):
        """equality and hash over objects, kind by kind"""
        ctx = self.ctx
        for k in self.kinds:
            it = Agree(self.p, {eqf.key, hf.key})
            A, B = ('V', ('a',)), ('V', ('b',))
            it.objs = (A, B)
            def cell(st, n):
                v = ('V', (n,))
                st.mem[('c', n)] = ('agg', wrap, wrap, (v,)) if wrap else v
                return ('ref', ('c', n), ())
            st = St()
            st.kinds[('a',)] = frozenset([k])
            try:
                hs = it.run(hf, [cell(st, 'a'), ('o', ('state',))], st)
                st = St()
                st.kinds[('a',)] = frozenset([k])
                es = it.run(eqf, [cell(st, 'a'), cell(st, 'b')], st)
            except Limit as e:
                raise AnalysisError('%s/%s on %s: %s' % (eqf.key, hf.key, k, e))
            self.compare('%s of kind %s' % (ty, k), it, es, hs, A, B, eqf, hf)
            # the other operand's kind
            for s, o in es:
                for s2 in self.true_path(it, s, o):
                    if self.identical(it, s2, A, B):
                        continue
                    kb = s2.kinds.get(('b',))
                    if kb is None or kb != frozenset([k]):
                        ctx.bad('equal keys have one kind', '%s %s' % (ty, k), '%s: %s can call an object of kind %s equal to one of kind %s; they are hashed differently' % (
                            eqf.key, eqf.key, k, 'any' if kb is None else '/'.join(sorted(kb - {k})[:4])), eqf.loc())
                    else:
                        ctx.ok('equal keys have one kind', '%s %s' % (ty, k))
    def compare(self, what, it, es, hs, A, B, eqf, hf):
        ctx = self.ctx
        if not any(o[0] == 'ret' for s, o in hs) and not any(self.true_path(it, s, o) for s, o in es):
            return
        comps = {}
        for s, o in hs:
            if o[0] == 'cut':
                raise AnalysisError('%s: loop in hash function %s' % (what, hf.key))
            if o[0] == 'ret':
                for e in s.effects:
                    if e[0] == 'hash':
                        comps.setdefault((e[1], e[2]), e)
        n = 0
        for s, o in es:
            for s2 in self.true_path(it, s, o):
                n += 1
                if self.identical(it, s2, A, B):
                    ctx.ok('hash components on true paths', '%s: identical' % what)
                    continue
                for (hn, ht), e in comps.items():
                    c = self.covered(it, s2, e, A, B, eqf, 0, comps)
                    lab = self.label(ht)
                    if c is None:
                        ctx.ok('hash components on true paths', '%s: %s' % (what, lab))
                    else:
                        ctx.bad('hash components on true paths', '%s: %s' % (what, lab), '%s: %s feeds %s to the hasher, which %s in %s' % (what, hf.key, lab, c, eqf.key), hf.loc())
        self.ctx.seen('true paths of key equalities', n)
    def label(self, t):
        m = re.findall(r"'(?:pay|fld|field)', '?(\w+)'?", repr(t))
        k = re.findall(r"\('(to_bits|disc|raw|len)'", repr(t))
        ds = []
        def walk(x):
            if isinstance(x, tuple):
                if len(x) == 3 and x[0] == 'fld':
                    walk(x[1]); ds.append('.%s' % (x[2],)); return
                if len(x) >= 3 and x[0] == 'pay':
                    ds.append(str(x[1])); return
                for y in x:
                    walk(y)
        walk(t)
        return ''.join(k[:1]) + (' ' if k and ds else '') + ''.join(ds) or 'its content'
    def table_pair(self, ty, eqf, hf):
        """a type whose contents is an unordered table"""
        ctx, p = self.ctx, self.p
        # hash side
        hashed = set()
        bad = False
        fam = self.family(hf)
        units = [(g, '{closure' in g.key, ()) for g in fam]
        i = 0
        while i < len(units):
            g, per_entry, via = units[i]
            i += 1
            loops = cyclic(g)
            if True:
                for b, t in g.calls():
                    if not (per_entry or b in loops):
                        continue
                    n = t.func or ''
                    for h in p.resolve(n, g.crate) if n else []:
                        if h.kind == 'fn' and h.name not in NAMES and any(re.search(r'::hash(?:::<.*>)?$', u.func or '') for x in self.family(h) for _, u in x.calls()):
                            tys = [g.types.get(o.place.local, '') if isinstance(g.types, dict) else g.types[o.place.local] for o in t.args if o.place is not None and not o.place.proj]
                            names = tuple(k for k in ('HashKey', 'IdentKey', 'Value') if re.search(r'\b%s\b' % k, ' '.join(tys) + n))
                            units += [(x, True, names) for x in self.family(h) if (x, True, names) not in units]
        ops = set()
        for g, per_entry, via in units:
            loops = cyclic(g)
            for b, t in g.calls():
                n = t.func or ''
                if not re.search(r'::hash(?:::<.*>)?$', n):
                    continue
                ht = simple(qself(n)[0])
                inner = per_entry or b in loops
                if inner:
                    for x in (via if via and ht not in ('HashKey', 'IdentKey', 'Value') else (ht,)):
                        hashed.add(x)
                    loc, fresh = self.hasher(g, t.args[1], loops, per_entry)
                    if not fresh:
                        bad = True
                        ctx.bad('table entries hashed independently of order', '%s %s' % (hf.key, ht), '%s feeds the %s of every entry to one hasher in iteration order, but tables with the same entries in another order are equal' % (hf.key, ht), '%s' % t.span)
                    else:
                        ctx.ok('table entries hashed independently of order', '%s: %s' % (g.key, ht))
            if not via:
                ops |= self.carried_ops(g, loops, per_entry)
        if 'Sub' in ops:
            ops = (ops - {'Sub'}) | {'Add'}
        if hashed and (len(ops) > 1 or ops - {'Add', 'Mul', 'BitXor', 'BitOr', 'BitAnd'}):
            ctx.bad('table entries hashed independently of order', '%s combination' % hf.key, '%s combines the hashes of the entries with %s, which depends on their order' % (hf.key, '/'.join(sorted(ops))), hf.loc())
        elif hashed:
            ctx.ok('table entries hashed independently of order', '%s: combined by %s' % (hf.key, '/'.join(sorted(ops)) or 'the order-free hasher'))
        # equality side
        rels = self.relations(eqf)
        via = False
        for g in self.family(eqf):
            for b, t in g.calls():
                n = t.func or ''
                if re.search(r'::eq(?:::<.*>)?$', n) and TABLES.search(n):
                    rels.add(('eq', 'Value'))
                if TABLES.search(n) and re.search(r'::(?:get|get_full|contains_key|get_key_value|get_index_of)(?:::<.*>)?$', n):
                    for k in ('HashKey', 'IdentKey'):
                        if re.search(r'(?:Map|Set)::<(?:[\w:]*::)?%s\b|(?:Map|Set)<(?:[\w:]*::)?%s\b' % (k, k), n):
                            rels.add(('eq', k))
        if not rels:
            raise AnalysisError('%s: no comparison of table entries recognised' % eqf.key)
        for h in sorted(hashed):
            if h == 'Value':
                cand = [(r, t) for r, t in rels if t == 'Value']
                if not cand:
                    ctx.bad('table values compared as hashed', '%s values' % ty, '%s hashes the values of the table but %s does not compare them' % (hf.key, eqf.key), hf.loc())
                for r, t in cand:
                    c = self.compat(r, t, 'Value', eqf)
                    (ctx.ok('table values compared as hashed', '%s values' % ty) if c is None else
                     ctx.bad('table values compared as hashed', '%s values' % ty, '%s: each value %s in %s' % (hf.key, c, eqf.key), hf.loc()))
            elif h == 'IdentKey':
                keys = {t for r, t in rels if t in ('HashKey', 'IdentKey')}
                cons = any(s.rv.kind == 'agg' and 'HashKey' in str(s.rv.a) for g in self.family(eqf) for b in g.blocks for s in g.blocks[b].stmts if s.kind == 'assign')
                if 'IdentKey' in keys and not cons:
                    ctx.ok('table keys compared as hashed', '%s IdentKey' % ty)
                else:
                    ctx.bad('table keys compared as hashed', '%s IdentKey' % ty, '%s hashes identity keys by identity but %s compares them by content' % (hf.key, eqf.key), eqf.loc())
            elif h == 'HashKey':
                if any(t == 'HashKey' for r, t in rels) or ('eq', 'Value') in rels:
                    ctx.ok('table keys compared as hashed', '%s HashKey' % ty)
                else:
                    ctx.bad('table keys compared as hashed', '%s HashKey' % ty, '%s hashes the keys but %s does not compare them' % (hf.key, eqf.key), eqf.loc())
        if not hashed:
            ctx.ok('table entries hashed independently of order', '%s: entries not hashed' % hf.key)
    def carried_ops(self, g, loops, per_entry):
        """operations applied to a value carried from one entry to the next"""
        INT = re.compile(r'^[ui](?:8|16|32|64|128|size)$|Wrapping<')
        ty = lambda l: (g.types.get(l, '') if isinstance(g.types, dict) else g.types[l]) or ''
        nodes = []
        for b in g.blocks:
            for s in g.blocks[b].stmts:
                if s.kind == 'assign':
                    nodes.append((b, s.place, [o for o in s.rv.ops if o.place is not None], getattr(s.rv, 'place', None), s.rv.kind, s.rv.a))
            t = g.blocks[b].term
            if t.kind == 'call' and t.dest is not None:
                nodes.append((b, t.dest, [o for o in t.args if o.place is not None], None, 'call', t.func or ''))
        inside = lambda b: per_entry or b in loops
        tainted = set()
        if '{closure' in g.key:
            tainted |= {l for l in g.args[1:] if INT.search(ty(l))}
            tainted |= {l for b, d, ops, pl, k, a in nodes for l in [d.local] if INT.search(ty(l)) and not d.proj and any(o.place.local in g.args[1:] for o in ops) and k != 'call'}
            tainted |= {g.args[0]} if g.args else set()
        for l in {d.local for b, d, *_ in nodes if INT.search(ty(d.local))}:
            where = [inside(b) for b, d, *_ in nodes if d.local == l]
            if any(where) and (not all(where) or l in g.args):
                tainted.add(l)
            # mutated through a reference (x += y by a trait call)
        refs = {d.local: pl.local for b, d, ops, pl, k, a in nodes if k == 'ref' and pl is not None and not pl.proj}
        changed = True
        while changed:
            changed = False
            for b, d, ops, pl, k, a in nodes:
                if inside(b) and d.local not in tainted and (any(o.place.local in tainted for o in ops) or pl is not None and pl.local in tainted) and (k != 'call' or ATOM.match(ty(d.local))):
                    tainted.add(d.local)
                    changed = True
        out = set()
        for b, d, ops, pl, k, a in nodes:
            if not inside(b) or not any(o.place.local in tainted or refs.get(o.place.local) in tainted for o in ops):
                continue
            if k in ('bin', 'binop', 'checked') and a:
                out.add(re.sub(r'(WithOverflow|Unchecked)$', '', a))
            elif k == 'call':
                m = re.search(r'::(?:wrapping|overflowing|saturating)_(\w+)(?:::<.*>)?$|::(rotate_left|rotate_right|swap_bytes)$|::(bitxor|bitor|bitand|add|mul|shl|shr|sub)(?:_assign)?(?:::<.*>)?$', a)
                if m:
                    n = (m.group(1) or m.group(2) or m.group(3)).replace('_assign', '')
                    out.add({'add': 'Add', 'mul': 'Mul', 'sub': 'Sub', 'shl': 'Shl', 'shr': 'Shr', 'bitxor': 'BitXor', 'bitor': 'BitOr', 'bitand': 'BitAnd'}.get(n, n))
        return out - {'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Cmp'}
    def hasher(self, g, o, loops, per_entry):
        """is the hasher operand a hasher of its own for each entry?"""
        for _ in range(8):
            if o.place is None:
                return None, False
            l = o.place.local
            if l in g.args:
                return l, False
            ds = defs(g).get(l, [])
            if len(ds) != 1:
                return l, all((b in loops) or per_entry for b, *_ in ds if isinstance(b, int)) and bool(ds)
            d = ds[0]
            x = d[1] if isinstance(d, tuple) else d
            if hasattr(x, 'rv') and x.rv.kind in ('ref', 'use', 'copyref', 'addr', 'cast'):
                if x.rv.kind == 'ref' or getattr(x.rv, 'place', None) is not None:
                    pl = x.rv.place if getattr(x.rv, 'place', None) is not None else x.rv.ops[0].place
                else:
                    pl = x.rv.ops[0].place
                if pl is None:
                    return l, False
                if pl.proj and pl.local in g.args:
                    return pl.local, False
                class O: pass
                o = O()
                o.place = pl
                continue
            return l, per_entry or self.block_of(g, x) in loops
        return None, False
    def block_of(self, g, x):
        for b in g.blocks:
            if g.blocks[b].term is x or any(s is x for s in g.blocks[b].stmts):
                return b
        return None
    def payload_pair(self, ty, rel):
        p, ctx = self.p, self.ctx
        hf = self.fn(ty, ('hash',), 'Hash')
        eqf = self.fn(ty, ('eql',)) if rel == 'eql' else self.fn(ty, ('eq',), 'PartialEq')
        if hf is None or eqf is None:
            raise AnalysisError('%s: equality (%s) or hash function not found' % (ty, rel))
        fields = repr([(v, fs) for itm in p.items.get(ty, []) for v, fs in (itm.variants or [])]) + repr([getattr(itm, 'fields', None) for itm in p.items.get(ty, [])])
        if TABLES.search(fields):
            self.table_pair(ty, eqf, hf)
            return
        it = Agree(p, {eqf.key, hf.key})
        A, B = ('o', ('a',)), ('o', ('b',))
        try:
            hs = it.run(hf, [('o', ('&', ('a',))), ('o', ('state',))], St())
            es = it.run(eqf, [('o', ('&', ('a',))), ('o', ('&', ('b',)))], St())
        except Limit as e:
            raise AnalysisError('%s: %s' % (ty, e))
        self.compare(ty, it, es, hs, ('o', ('a',)), ('o', ('b',)), eqf, hf)
        if ty == 'RString':
            # == on strings compares bytes: the key equality may not tell representations of the same bytes apart
            for s, o in es:
                if o[0] != 'ret' or o[1][0] not in ('bool', 'Vb'):
                    continue
                s2 = s.copy()
                if not it.assume(s2, o[1][1], False):
                    continue
                compared = any(isinstance(k, tuple) and k[0] == 'b' and v is False and k[1][0] not in ('eq', 'disc') for k, v in s2.facts.items())
                (ctx.ok('representation of strings does not matter', ty) if compared else
                 ctx.bad('representation of strings does not matter', eqf.key, '%s answers false from the representation alone: strings with the same bytes become different keys' % eqf.key, eqf.loc()))

def succs(g, b):
    return list(g.blocks[b].term.succ or [])

def cyclic(g):
    """blocks on a cycle"""
    bs = list(g.blocks)
    out = set()
    for b in bs:
        seen, w = set(), succs(g, b)
        while w:
            x = w.pop()
            if x in seen:
                continue
            seen.add(x)
            if x == b:
                out.add(b)
                break
            w += succs(g, x)
    return out

def run(ctx):
    p = ctx.p
    c = Check(ctx)
    probe = Interp(p)
    c.kinds = sorted((absint.IMM | set(probe.heap)) - {'INVALID', 'SPLAT', 'UNINIT'})
    c.pair('HashKey', 'eq')
    c.pair('IdentKey', 'eq')
    # key types of the interpreter's own tables
    keys = set()
    for f in p.fns:
        if f.crate != 'ruruby_parse':
            for t in f.types.values() if isinstance(f.types, dict) else f.types:
                keys.update(simple(m) for m in re.findall(r'\b(?:IndexMap|HashMap|IndexSet|HashSet)<([\w:]+)', t or ''))
    for k in sorted(keys):
        if k in p.items and c.fn(k, ('hash',), 'Hash') and c.fn(k, ('eq',), 'PartialEq') and k not in ('Value', 'RValue'):
            c.pair(k, 'eq')
    n = 0
    while c.todo:
        ty, rel = c.todo.pop()
        n += 1
        if ty in ('HashKey', 'IdentKey', 'Value'):
            hf = c.fn(ty, ('hash',), 'Hash')
            eqf = c.fn(ty, ('eql',)) if rel == 'eql' else c.fn(ty, ('eq',), 'PartialEq')
            if hf is None or eqf is None:
                raise AnalysisError('%s: equality or hash function not found' % ty)
            c.object_pair('%s' % ty, eqf, hf, ty if ty != 'Value' else None)
        else:
            c.payload_pair(ty, rel)
    ctx.seen('pairs of equality and hash functions', n)
    ctx.floor('pairs of equality and hash functions', 7)
