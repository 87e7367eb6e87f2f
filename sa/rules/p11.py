"""Argument-count discipline of builtins. Interval analysis of the number of positional arguments of the current call, started at
[0, unbounded) in every function registered as a builtin body, interprocedural through helpers and argument-count checks (whose own
comparisons are analysed, not trusted by name), path-sensitive in Result outcomes. Obligations: every read of a positional argument
(`vm[i]`, indexing or slicing of the argument slice or a copy of it) is within the lower bound known at that point, or uses an index
proved below the count."""
import re
from program import AnalysisError, simple
from flow import origin, single_def, const_value
from typestate import Engine, Client
import ruby

INF = 10 ** 9
FLIP = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le', 'Eq': 'Eq', 'Ne': 'Ne'}
NEG = {'Lt': 'Ge', 'Ge': 'Lt', 'Gt': 'Le', 'Le': 'Gt', 'Eq': 'Ne', 'Ne': 'Eq'}

def narrow(ts, op, n):
    lo, hi = ts
    if op == 'Eq':
        lo, hi = max(lo, n), min(hi, n)
    elif op == 'Ne':
        if lo == n:
            lo += 1
        if hi == n:
            hi -= 1
    elif op == 'Lt':
        hi = min(hi, n - 1)
    elif op == 'Le':
        hi = min(hi, n)
    elif op == 'Gt':
        lo = max(lo, n + 1)
    elif op == 'Ge':
        lo = max(lo, n)
    return (lo, hi) if lo <= hi else None

class Counts(Client):
    params = True
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.p
        self.nat = ruby.natives(ctx.p)
        self.names = ruby.ruby_names(ctx.p)
        self.reads, self.bad, self.checks = {}, {}, set()
        p = ctx.p
        # functions that (transitively, by direct calls) read arguments or test the count
        self.idx = {f.key for f in p.find('VM', 'index') if f.trait == 'Index'}
        self.argsfn = {f.key for f in p.find('VM', 'args')} | {f.key for f in p.find('VM', 'args_range')}
        self.lenfn = {f.key for f in p.find('Args2', 'len')}
        if not self.idx or not self.argsfn or not self.lenfn:
            raise AnalysisError('argument accessors not found')
        base = self.idx | self.argsfn | self.lenfn
        calls = {f.key: {g.key for b, t in f.calls() for g in p.callees(f, t)} for f in p.fns}
        rel = set()
        ch = True
        while ch:
            ch = False
            for k, c in calls.items():
                if k not in rel and (c & base or c & rel):
                    rel.add(k)
                    ch = True
        # a frame is pushed by the VM's own machinery: below it another call's arguments are meant
        self.rel = {k for k in rel if not (p.by_key[k].self_type in ('VM', 'FiberContext', 'FiberHandle') and not k.endswith('}'))} - base
        self.rel |= {k for k in rel if p.by_key[k].self_type == 'FiberHandle' and p.by_key[k].name == 'fiber_yield'}
        self.slices = set()
        for f in p.fns:      # helpers taking the argument slice
            if f.kind == 'fn' and any(re.fullmatch(r"&(?:'\w+ )?\[(?:\w+::)*Value\]", f.types[a]) for a in f.args):
                self.slices.add(f.key)
    def relevant(self, g):
        return (g.key in self.rel or g.key in self.slices or g.key in self.nat) and g.key not in self.idx | self.argsfn | self.lenfn
    def entry_env(self, f, ts):
        return tuple(ts[2])

    # ------------------------------------------------------------ tags
    def base(self, f, op, env=()):
        """local (possibly behind a single reference temporary) an operand denotes"""
        if op.place is None:
            return None
        l = op.place.local
        for _ in range(6):
            if isinstance(env, dict) and isinstance(env.get(l), tuple) and env[l][0] not in ('alias', 'not', 'pv'):
                break
            d = single_def(f, l)
            if d and d[0] != 'arg' and getattr(d[2], 'kind', '') in ('ref', 'use') and d[2].ops[0].place is not None:
                pl = d[2].ops[0].place
                if all(x == '*' for x in pl.proj):
                    l = pl.local
                    continue
            break
        return l

    def tagof(self, f, op, env):
        if op.kind == 'const':
            v = const_value(self.p, op, f.crate)
            return ('int', v) if isinstance(v, int) else None
        v = env.get(op.place.local)
        if isinstance(v, tuple) and all(x == '*' for x in op.place.proj):
            return v
        if isinstance(v, tuple) and v[0] in ('opt', 'chk') and op.place.proj and op.place.proj[-1][0] == 'f':
            return v[1] if not (v[0] == 'chk' and op.place.proj[-1][1] == 1) else None
        return None

    def value(self, f, b, s, ts, env):
        if s.kind != 'assign' or s.place.proj:
            return None
        rv = s.rv
        if rv.kind in ('use', 'cast') and rv.ops:
            if rv.ops[0].kind == 'const' and f.types.get(s.place.local) == 'usize':
                return self.tagof(f, rv.ops[0], env)
            if rv.ops[0].place is not None:
                t = self.tagof(f, rv.ops[0], env)
                return t if isinstance(t, tuple) and t[0] not in ('alias', 'not', 'pv') else None
        if rv.kind == 'ref' and rv.ops[0].place is not None:
            t = self.tagof(f, rv.ops[0], env)
            return t if isinstance(t, tuple) and t[0] in ('args', 'rng', 'len', 'args2') else None
        if rv.kind == 'len':
            t = self.tagof(f, rv.ops[0], env)
            if t and t[0] == 'args':
                return ('len', 0)
        if rv.kind == 'un' and rv.a == 'Not' and rv.ops[0].place is not None:
            t = self.tagof(f, rv.ops[0], env)
            if t and t[0] == 'cmp':
                return ('cmp', NEG[t[1]], t[2])
        if rv.kind == 'bin':
            op = rv.a
            x, y = (self.tagof(f, o, env) for o in rv.ops)
            if op in FLIP:
                if x and y and x[0] == 'len' and y[0] == 'int':
                    return ('cmp', op, y[1] - x[1])
                if x and y and x[0] == 'int' and y[0] == 'len':
                    return ('cmp', FLIP[op], x[1] - y[1])
                if y and y[0] == 'len' and rv.ops[0].place is not None and op in ('Lt', 'Le', 'Ne'):
                    return ('cmpv', op, self.base(f, rv.ops[0]), y[1])
                if x and x[0] == 'len' and rv.ops[1].place is not None and op in ('Gt', 'Ge', 'Ne'):
                    return ('cmpv', FLIP[op], self.base(f, rv.ops[1]), x[1])
            if op in ('CheckedAdd', 'Add', 'CheckedSub', 'Sub') and x and y:
                sg = 1 if 'Add' in op else -1
                r = None
                if x[0] in ('len', 'below') and y[0] == 'int':
                    r = (x[0], x[1] + sg * y[1])
                elif y[0] in ('len', 'below') and x[0] == 'int' and sg > 0:
                    r = (y[0], y[1] + x[1])
                elif x[0] == 'int' and y[0] == 'int':
                    r = ('int', x[1] + sg * y[1])
                if r:
                    return ('chk', r) if op.startswith('Checked') else r
        if rv.kind == 'agg' and rv.a in ('struct', 'variant') and rv.text:
            n = simple(rv.text[0] if isinstance(rv.text, tuple) else rv.text)
            ts_ = [self.tagof(f, o, env) for o in rv.ops]
            if n in ('Range', 'RangeFrom', 'RangeTo', 'RangeInclusive') and ts_:
                return ('rng', n, tuple(ts_))
        return None

    def switch_tag(self, f, b, v, k, vals, ts, env):
        if v[0] == 'cmp':
            truth = k != 0 if k is not None else (0 in vals)
            if k is None and 0 not in vals:
                truth = False
            return narrow(ts, v[1] if truth else NEG[v[1]], v[2])
        if v[0] == 'cmpv':
            truth = (k != 0) if k is not None else (0 in vals)
            op = v[1] if truth else NEG[v[1]]
            if op == 'Lt':
                env[v[2]] = ('below', v[3])
            elif op == 'Le':
                env[v[2]] = ('below', v[3] + 1)
            return ts
        if v[0] == 'len':
            if k is not None:
                return narrow(ts, 'Eq', k - v[1])
            r = ts
            for x in sorted(vals):
                r = narrow(r, 'Ne', x - v[1]) if r else None
            return r
        return ts

    # ------------------------------------------------------------ reads
    def read(self, f, b, t, ts, what, span):
        """t: tag of the index"""
        ok = None
        if t is None:
            ok, msg = False, 'an index not related to the number of arguments'
        elif t[0] == 'int':
            ok, msg = ts[0] > t[1], 'argument %d while only %d are known to be passed' % (t[1], ts[0])
        elif t[0] == 'below':
            ok, msg = t[1] <= 0, 'an index that may exceed the number of arguments'
        elif t[0] == 'len':
            ok, msg = t[1] < 0 and ts[0] >= -t[1], 'an index that may exceed the number of arguments'
        else:
            ok, msg = False, 'an index not related to the number of arguments'
        key = (f.key, b, span, what)
        self.reads.setdefault(key, 0)
        self.reads[key] += 1
        if not ok:
            self.bad.setdefault((f.key, what + ' ' + (str(t[1]) if t and t[0] == 'int' else '?')), (msg, f.loc(span), ts))

    def stmt(self, f, b, i, s, ts, env):
        if s.kind == 'assign':
            for o in list(s.rv.ops):
                if o.place is None or not o.place.proj:
                    continue
                for j, x in enumerate(o.place.proj):
                    if x != '*' and x[0] in ('i', 'c') and all(y == '*' for y in o.place.proj[:j]):
                        v = env.get(o.place.local)
                        if isinstance(v, tuple) and v[0] == 'args':
                            if x[0] == 'i':
                                t = env.get(x[1])
                            else:
                                m = re.match(r'(-?\d+)', str(x[1]))
                                t = ('int', int(m.group(1))) if m and not str(x[1]).startswith('-') and ':' not in str(x[1]) else ('len', -1)
                            self.read(f, b, t if isinstance(t, tuple) else None, ts, 'args[]', s.span)
        return ts

    def call(self, f, b, t, ts, env):
        fn = t.func or ''
        r = {g.key for g in self.p.resolve(t.func, f.crate)} if t.func else set()
        if r & self.idx:
            ix = t.args[1]
            self.read(f, b, self.tagof(f, ix, env), ts, 'vm[]', t.span)
            return [(ts, None)]
        if r & self.argsfn:
            return [(ts, ('args',))]
        if r & self.lenfn:
            l = self.base(f, t.args[0], env)
            tag = env.get(l)
            if (isinstance(tag, tuple) and tag[0] == 'args2') or (f.is_closure and l == 1):
                return [(ts, ('len', 0))]
            return [(ts, None)]
        if r and any(g.name == 'into' and g.self_type == 'Args2' for g in self.p.resolve(t.func, f.crate)):
            tag = env.get(self.base(f, t.args[0], env))
            return [(ts, ('args',))] if isinstance(tag, tuple) and tag[0] == 'args2' else [(ts, None)]
        a0 = env.get(self.base(f, t.args[0], env)) if t.args and t.args[0].place is not None else None
        if isinstance(a0, tuple):
            last = re.sub(r'::<.*>$', '', fn).split('::')[-1]
            if a0[0] == 'args':
                if last in ('to_vec', 'to_owned', 'clone', 'deref', 'deref_mut', 'as_slice', 'as_ref', 'borrow', 'into_vec'):
                    return [(ts, ('args',))]
                if last == 'len':
                    return [(ts, ('len', 0))]
                if last == 'is_empty':
                    return [(ts, ('cmp', 'Eq', 0))]
                if last in ('index', 'index_mut') and ' as std::ops::Index' in fn:
                    ix = self.tagof(f, t.args[1], env)
                    if ix and ix[0] == 'rng':
                        for k, e in enumerate(ix[2]):
                            start = (ix[1] == 'RangeFrom') or (k == 0 and ix[1] != 'RangeTo')
                            if e and e[0] == 'int':
                                self.read(f, b, ('int', e[1] - 1) if e[1] > 0 else ('below', 0), ts, 'args[..]', t.span)
                            elif e and e[0] == 'len':
                                self.read(f, b, ('len', e[1] - 1) if e[1] < 0 else ('below', e[1]), ts, 'args[..]', t.span) if not start or e[1] < 0 else None
                            else:
                                self.read(f, b, None, ts, 'args[..]', t.span)
                    else:
                        self.read(f, b, ix, ts, 'args[]', t.span)
                    return [(ts, None)]
            if a0[0] == 'rng':
                if last in ('into_iter', 'iter', 'rev', 'clone', 'by_ref'):
                    return [(ts, a0)]
                if last in ('next', 'next_back'):
                    e = a0[2][-1] if a0[1] == 'Range' and len(a0[2]) == 2 else None
                    return [(ts, ('opt', ('below', e[1])) if e and e[0] == 'len' else ('opt', ('below', e[1] - ts[0])) if e and e[0] == 'int' and e[1] <= ts[0] else None)]
        return None

    # ------------------------------------------------------------ calls
    def enter(self, f, b, t, g, ts, env):
        ps = []
        for i, a in enumerate(t.args):
            if i >= len(g.args):
                break
            v = self.tagof(f, a, env) if a.kind == 'const' or a.place is not None else None
            if (not v or v[0] == 'int') and a.place is not None:
                w = env.get(self.base(f, a, env))
                if isinstance(w, tuple) and w[0] in ('args2', 'args'):
                    v = w
            if v and v[0] in ('int', 'len', 'args', 'args2'):
                ps.append((g.args[i], v))
        has_args = any(v[0] in ('args', 'args2') for _, v in ps)
        takes_vm = any(simple(g.types[a]) == 'VM' for a in g.args) or g.is_closure
        if not has_args and not takes_vm:
            return None
        if g.key in self.nat and not has_args and len(g.args) == 3 and simple(g.types[g.args[2]]) == 'Args2':
            # a builtin body called directly with an argument record of its own: the frame is still the caller's
            ps = [x for x in ps if x[0] != g.args[2]]
        return ts + (tuple(ps),)

    def leave(self, f, b, t, g, ts, tin, tout, tag, env):
        return [(tout[:2], tag if not isinstance(tag, tuple) or tag[0] in ('pv', 'len', 'args', 'cmp') else None)]

def run(ctx):
    p = ctx.p
    c = Counts(ctx)
    eng = Engine(p, c)
    if len(c.nat) < 380:
        raise AnalysisError('only %d builtin bodies found' % len(c.nat))
    roots = []
    for k, f in c.nat.items():
        roots.append((f, (0, INF, ((f.args[2], ('args2',)),) if not f.is_closure else ())))
    eng.run(roots)
    for k in sorted(c.reads):
        if not any(bk[0] == k[0] and bk[1].startswith(k[3]) for bk in c.bad):
            ctx.ok('positional argument reads', '%s (%s)' % (k[0], '%s' % (k[3])))
        else:
            ctx.ok('positional argument reads in functions with a finding')
    for (key, what), (msg, loc, ts) in sorted(c.bad.items()):
        nm = ', '.join(sorted(set(c.names.get(key, []))))
        ctx.bad('positional argument reads', '%s %s' % (nm or key, what), '%s%s reads %s' % (key, ' (%s)' % nm if nm else '', msg), loc)
    ctx.seen('builtin bodies', len(c.nat))
    ctx.seen('functions analysed', len(eng.functions))
    ctx.floor('positional argument reads', 200)
    # every other user of the unchecked accessor
    for f in p.fns:
        for b, t in f.calls():
            if t.func and {g.key for g in p.resolve(t.func, f.crate)} & c.idx and f.key not in eng.functions:
                ctx.bad('unanalysed argument read', 'unanalysed %s' % f.key, '%s reads positional arguments but is not reachable from a builtin body the analysis understands' % f.key, f.loc(t.span))
    ctx.assume('the frame of a builtin holds exactly as many arguments as Args2::len reports (established by the call protocol, not checked here)')
    if eng.merged:
        ctx.notes.append('path merging in %s' % sorted(eng.merged))
