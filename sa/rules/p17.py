"""Parser mode pairing. Typestate analysis over the MIR of every Parser method, interprocedural and path-sensitive in
Result/Option/bool outcomes. Abstract state: for every boolean mode field of Parser whether it holds its value at entry, a value
saved in a local, or some other value; and the depth of the scope stack relative to entry. Obligations: on every path on which a
construct is parsed successfully (Ok, or plain return) each mode field has its entry value again and the scope stack its entry
depth. A helper that is not part of the recursive grammar may change them if all its successful paths agree; its callers then
have to compensate."""
from program import AnalysisError, simple
from flow import origin, const_value
from typestate import Engine, Client

class Modes(Client):
    params = True
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.p
        it = [i for i in ctx.p.items.get('Parser', []) if i.kind == 'struct']
        if len(it) != 1:
            raise AnalysisError('struct Parser not found')
        fields = it[0].fields
        self.flags = [k for k, (n, t) in enumerate(fields) if t.strip() == 'bool']
        self.stacks = [k for k, (n, t) in enumerate(fields) if t.replace(' ', '').startswith('Vec<')]
        self.names = {k: n for k, (n, t) in enumerate(fields)}
        if len(self.flags) < 3 or len(self.stacks) < 1:
            raise AnalysisError('mode fields of Parser not recognised')
        self.writes, self.saves, self.pushes, self.pops = set(), set(), set(), set()
        self._f, self._ip, self._pr = {}, {}, {}
        self.fs = [g for g in ctx.p.fns if g.kind == 'fn' and self.is_method(g)]
        # recursion
        self.calls = {g.key: {h.key for b, t in g.calls() for h in ctx.p.callees(g, t)} for g in self.fs}
        self.recursive = set()
        for g in self.fs:
            seen, st = set(), list(self.calls[g.key])
            while st:
                k = st.pop()
                if k in seen or k not in self.calls:
                    continue
                seen.add(k)
                st += self.calls[k]
            if g.key in seen:
                self.recursive.add(g.key)
        self.exits = {}

    def fresh(self):
        return (tuple('O' for _ in self.flags), tuple(0 for _ in self.stacks))

    def entry_env(self, f, ts):
        return tuple(ts[2])

    def is_method(self, g):
        return g.self_type == 'Parser' and g.crate == 'ruruby_parse' and g.trait is None and not g.is_closure and bool(g.args) \
            and simple(g.types[g.args[0]]) == 'Parser' and g.types[g.args[0]].startswith('&mut')
    relevant = is_method

    def primary(self, f):
        if f.key not in self._pr:
            r = None
            if f.args and simple(f.types[f.args[0]]) == 'Parser' and f.types[f.args[0]].startswith('&'):
                r = f.args[0]
            else:
                ls = [l for l in f.types if simple(f.types[l]) == 'Parser' and not f.types[l].startswith('&') and l in f.names]
                r = ls[0] if ls else None
            self._pr[f.key] = r
        return self._pr[f.key]

    def field(self, f, pl):
        k = (f.key, pl.local, tuple(pl.proj))
        if k not in self._f:
            r = None
            o, d, pr = origin(f, pl)
            prim = self.primary(f)
            if prim is not None and o in ('arg', 'local') and d == prim:
                pr = [x for x in pr if x != '*']
                if len(pr) == 1 and pr[0][0] == 'f':
                    r = pr[0][1]
            self._f[k] = r
        return self._f[k]

    def stmt(self, f, b, i, s, ts, env):
        if s.kind == 'assign' and s.place.proj:
            fl = self.field(f, s.place)
            if fl in self.flags:
                self.writes.add((f.key, b, i))
                return self.set(ts, fl, self.tag(f, s.rv, env))
        return ts

    def set(self, ts, fl, lab):
        fs = list(ts[0])
        fs[self.flags.index(fl)] = lab or 'C'
        return (tuple(fs), ts[1])

    def tag(self, f, rv, env):
        if rv.kind == 'use' and rv.ops[0].place is not None:
            v = self.pick(rv.ops[0].place, env)
            if isinstance(v, tuple) and v[0] == 'snap':
                return v
        return 'C'

    def pick(self, pl, env):
        v = env.get(pl.local)
        for x in pl.proj:
            if isinstance(v, tuple) and v[0] == 'tup' and x != '*' and x[0] == 'f' and x[1] < len(v[1]):
                v = v[1][x[1]]
            elif x != '*':
                return None
        return v

    def value(self, f, b, s, ts, env):
        if s.kind != 'assign' or s.place.proj:
            return None
        if s.rv.kind == 'use' and s.rv.ops[0].place is not None:
            pl = s.rv.ops[0].place
            if pl.proj:
                fl = self.field(f, pl)
                if fl in self.flags:
                    self.saves.add((f.key, b))
                    return self.snap(fl, ts)
            v = self.pick(pl, env)
            if isinstance(v, tuple) and v[0] in ('snap', 'tup'):
                return v
        if s.rv.kind == 'agg' and s.rv.a in ('tuple', 'struct'):
            vs = tuple(self.pick(o.place, env) if o.place is not None else None for o in s.rv.ops)
            vs = tuple(v if isinstance(v, tuple) and v[0] == 'snap' else None for v in vs)
            if any(vs):
                return ('tup', vs)
        return None

    def snap(self, fl, ts):
        lab = ts[0][self.flags.index(fl)]
        return ('snap', fl, 'O') if lab == 'O' else lab if isinstance(lab, tuple) else None

    def norm(self, lab, fl):
        """a saved entry value written back is the entry value"""
        return 'O' if lab == ('snap', fl, 'O') else lab

    def call(self, f, b, t, ts, env):
        fn = t.func or ''
        if t.args and t.args[0].place is not None:
            if 'vec::Vec' in fn:
                st = self.field(f, t.args[0].place)
                if st in self.stacks:
                    k = self.stacks.index(st)
                    d = {'push': 1, 'pop': -1}.get(fn.split('::')[-1])
                    if d:
                        (self.pushes if d > 0 else self.pops).add((f.key, b))
                        ds = list(ts[1])
                        ds[k] = max(-4, min(4, ds[k] + d))
                        return [((ts[0], tuple(ds)), 1 if d < 0 else None)]
            if '::mem::replace' in fn or '::mem::take' in fn or '::mem::swap' in fn:
                fl = self.field(f, t.args[0].place)
                if fl in self.flags:
                    old = self.snap(fl, ts)
                    lab = 'C'
                    if 'swap' in fn:
                        k, d, pr = origin(f, t.args[1])
                        v = env.get(d) if not [x for x in pr if x != '*'] else None
                        e = dict(env)
                        e[d] = old
                        return [(self.set(ts, fl, v if isinstance(v, tuple) else 'C'), None, tuple((a, c) for a, c in e.items() if c is not None))]
                    if len(t.args) > 1 and t.args[1].place is not None:
                        v = self.pick(t.args[1].place, env)
                        lab = v if isinstance(v, tuple) and v[0] == 'snap' else 'C'
                    self.writes.add((f.key, b, -1))
                    return [(self.set(ts, fl, lab), old)]
        return None

    def prim_call(self, f, t):
        k = (f.key, id(t))
        if k not in self._ip:
            r = False
            if t.args and t.args[0].place is not None:
                o, d, pr = origin(f, t.args[0])
                r = o in ('arg', 'local') and d == self.primary(f)
            self._ip[k] = r
        return self._ip[k]

    # labels: 'O' value at entry; ('snap', fl, 'O') is the saved entry value (equal to 'O' for the same field); 'C' changed
    def enter(self, f, b, t, g, ts, env):
        if not self.prim_call(f, t):
            return self.fresh() + ((),)
        ps = []
        for i, a in enumerate(t.args):
            if a.place is not None and i < len(g.args) and i > 0:
                v = self.pick(a.place, env)
                if isinstance(v, tuple) and v[0] == 'snap':
                    cur = self.norm(ts[0][self.flags.index(v[1])], v[1])
                    ps.append((g.args[i], ('snap', v[1], 'O' if cur == 'O' else 'P')))
                elif isinstance(v, tuple) and v[0] == 'tup':
                    ps.append((g.args[i], ('tup', tuple(None if x is None else ('snap', x[1], 'O' if self.norm(ts[0][self.flags.index(x[1])], x[1]) == 'O' else 'P') for x in v[1]))))
        return self.fresh() + (tuple(ps),)

    def leave(self, f, b, t, g, ts, tin, tout, tag, env):
        if not self.prim_call(f, t):
            return [(ts, tag if not isinstance(tag, tuple) or tag[0] == 'pv' else None)]
        if g.key in self.recursive:      # grammar rules are required to be neutral, and checked for it themselves
            return [(ts, tag if not isinstance(tag, tuple) or tag[0] == 'pv' else None)]
        fs = []
        for k, fl in enumerate(self.flags):
            o = self.norm(tout[0][k], fl)
            if o == 'O':
                fs.append(ts[0][k])
            elif isinstance(o, tuple) and o[2] == 'P' and o[1] == fl:
                fs.append('O')
            else:
                fs.append('C')
        ds = tuple(max(-4, min(4, a + c)) for a, c in zip(ts[1], tout[1]))
        def back(v):
            if isinstance(v, tuple) and v[0] == 'snap':
                if v[2] == 'P':
                    return ('snap', v[1], 'O')
                return self.snap(v[1], ts)
            return v
        if isinstance(tag, tuple) and tag[0] == 'snap':
            tag = back(tag)
        elif isinstance(tag, tuple) and tag[0] == 'tup':
            tag = ('tup', tuple(back(x) for x in tag[1]))
        return [((tuple(fs), ds), tag)]

    def at_return(self, f, b, ts, env):
        return (tuple(self.norm(l, fl) for l, fl in zip(ts[0], self.flags)), ts[1])

    def ret(self, f, b, ts, tag):
        if 'Result<' in (f.ret or '') and tag == 1:
            return
        self.exits.setdefault(f.key, set()).add(ts)

def run(ctx):
    p = ctx.p
    c = Modes(ctx)
    eng = Engine(p, c)
    roots = [(f, c.fresh() + ((),)) for f in c.fs]
    roots += [(f, c.fresh() + ((),)) for f in p.fns if f.kind == 'fn' and f.crate == 'ruruby_parse' and f.self_type == 'Parser' and f.trait is None
              and not f.is_closure and not c.relevant(f) and c.primary(f) is not None]
    eng.run(roots)
    init = c.fresh()
    touching = {k[0] for k in c.writes} | {k[0] for k in c.pushes} | {k[0] for k in c.pops}
    for f in c.fs:
        ex = c.exits.get(f.key, set())
        for k, fl in enumerate(c.flags):
            vals = {e[0][k] for e in ex}
            judge(ctx, c, f, vals, 'O', 'mode `%s`' % c.names[fl], 'is left changed', touching)
        for k, st in enumerate(c.stacks):
            vals = {e[1][k] for e in ex}
            judge(ctx, c, f, vals, 0, 'scope stack `%s`' % c.names[st], 'depth changes', touching)
    ctx.seen('functions analysed', len(eng.functions))
    ctx.seen('mode writes', len(c.writes))
    ctx.seen('mode saves', len(c.saves))
    ctx.seen('scope pushes', len(c.pushes))
    ctx.seen('scope pops', len(c.pops))
    ctx.floor('functions analysed', 70)
    ctx.floor('mode writes', 8)
    ctx.floor('scope pushes', 4)
    ctx.floor('scope pops', 4)
    if eng.merged:
        raise AnalysisError('state limit reached in %s' % sorted(eng.merged))
    ctx.assume('a failed parse (Err) abandons the parser; only successful paths have to restore its modes')

def judge(ctx, c, f, vals, neutral, what, verb, touching):
    kind = what.split(' `')[0] + ' restored on success'
    if vals <= {neutral}:
        ctx.ok(kind, '%s %s' % (f.key, what) if f.key in touching else None)
    elif len(vals) == 1 and f.key not in c.recursive:
        ctx.ok('uniform helper effect', '%s %s' % (f.key, what))
    else:
        # report where the imbalance originates: a callee with the same imbalance is reported instead of its callers
        inner = [k for k in c.calls[f.key] if k != f.key and k in c.exits and bad_vals(c, k, what, neutral)]
        if inner and f.key not in touching:
            return
        ctx.bad(kind, '%s %s' % (f.key, what), '%s: %s %s on a path that parses successfully (%s)' % (f.key, what, verb, sorted(map(str, vals))), f.loc())

def bad_vals(c, key, what, neutral):
    n = what.split('`')[1]
    for k, fl in enumerate(c.flags):
        if c.names[fl] == n:
            v = {e[0][k] for e in c.exits[key]}
            return v - {neutral} and (len(v) > 1 or key in c.recursive)
    for k, st in enumerate(c.stacks):
        if c.names[st] == n:
            v = {e[1][k] for e in c.exits[key]}
            return v - {neutral} and (len(v) > 1 or key in c.recursive)
