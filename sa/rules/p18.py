"""Lookahead coherence. Typestate analysis over the MIR of every parser and lexer function, interprocedural and path-sensitive
in Result/Option/bool outcomes. The abstract state is the reading position (symbolic label), the label each lookahead cache
(every Option<Token> field of Lexer) was filled at, and the labels held by saved-position values. Writing the position field
moves to a fresh label, writing it from a saved value returns to that label. Obligations: every read of a cache happens while
its label is the current position (or the cache is empty); every function that fills a cache does so with a token obtained from
read_token and leaves the position where it was when it was entered."""
import re
from program import AnalysisError, simple, strip_ref
from flow import origin
from typestate import Engine, Client

class Lookahead(Client):
    # ts = (cur, caches tuple, site)
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.p
        it = [i for i in ctx.p.items.get('Lexer', []) if i.kind == 'struct']
        if len(it) != 1:
            raise AnalysisError('struct Lexer not found')
        fields = it[0].fields
        self.caches = [k for k, (n, t) in enumerate(fields) if 'Option' in t and 'Token' in t]
        pos = [k for k, (n, t) in enumerate(fields) if n == 'pos']
        if not pos:
            pos = [k for k, (n, t) in enumerate(fields) if t.strip() == 'usize' and not any(x in n for x in ('start', 'heredoc'))]
        if len(pos) != 1 or not self.caches:
            raise AnalysisError('Lexer position or lookahead fields not recognised: %r' % (fields,))
        self.pos = pos[0]
        self.names = {k: fields[k][0] for k in self.caches}
        it = [i for i in ctx.p.items.get('Parser', []) if i.kind == 'struct']
        self.lexf = [k for k, (n, t) in enumerate(it[0].fields) if simple(t) == 'Lexer']
        if len(self.lexf) != 1:
            raise AnalysisError('Parser must own exactly one Lexer')
        self.reads, self.fills, self.moves, self.restores, self.calls = set(), set(), set(), set(), set()
        self._ip = {}
        self._lf, self._pr = {}, {}
        self.prepare()

    def fresh(self):
        return (0, tuple('E' for _ in self.caches), None)

    params = True
    def entry_env(self, f, ts):
        return tuple((l, ('snap', lab)) for l, lab in ts[3])

    def prepare(self):
        """which functions (transitively) touch the caches, or move the position"""
        fs = [g for g in self.p.fns if g.kind == 'fn' and self.is_method(g)]
        self._lf, self._pr = {}, {}
        touch, moves, rest = set(), set(), set()
        calls = {}
        for g in fs:
            for b, i, s in g.stmts():
                if s.kind != 'assign':
                    continue
                pls = [o.place for o in s.rv.ops if o.place is not None and o.place.proj] + ([s.place] if s.place.proj else [])
                for pl in pls:
                    fl = self.lexer_field(g, pl)
                    if fl in self.caches:
                        touch.add(g.key)
                    if fl == self.pos and pl is s.place:
                        moves.add(g.key)
            calls[g.key] = {h.key for b, t in g.calls() for h in self.p.callees(g, t)}
        def close(s):
            ch = True
            while ch:
                ch = False
                for g in fs:
                    if g.key not in s and calls[g.key] & s:
                        s.add(g.key)
                        ch = True
            return s
        self.touch, self.moving = close(touch), close(moves)
        self.tracks = {g.key for g in fs if any(s.kind == 'assign' and s.rv.kind == 'use' and s.place.proj and
                       self.lexer_field(g, s.place) == self.pos for _, _, s in g.stmts())}
        self.snapfn = {g.key for g in fs if re.fullmatch(r'usize|\((usize(, )?)+\)', g.ret or '')}
        ch = True
        while ch:       # users of saved positions
            new = {g.key for g in fs if calls[g.key] & self.snapfn} | self.snapfn | self.tracks
            ch = new != self.tracks
            self.tracks = new

    # --- objects
    def relevant(self, g):
        return self.is_method(g) and (g.key in self.touch or g.key in self.moving or g.key in self.snapfn)

    def is_method(self, g):
        return g.self_type in ('Parser', 'Lexer') and g.crate == 'ruruby_parse' and g.trait is None and not g.is_closure and bool(g.args) \
            and simple(g.types[g.args[0]]) in ('Parser', 'Lexer') and g.types[g.args[0]].startswith('&')

    def primary(self, f):
        if f.key not in self._pr:
            self._pr[f.key] = self._primary(f)
        return self._pr[f.key]

    def _primary(self, f):
        if f.args and simple(f.types[f.args[0]]) in ('Parser', 'Lexer') and f.types[f.args[0]].startswith('&'):
            return ('arg', f.args[0])
        ls = [l for l in f.types if simple(f.types[l]) == 'Parser' and not f.types[l].startswith('&') and l in f.names]
        return ('local', ls[0]) if ls else None

    def lexer_field(self, f, pl):
        """field index when the place is a field of the primary object's lexer"""
        k = (f.key, pl.local, tuple(pl.proj))
        if k not in self._lf:
            self._lf[k] = self._lexer_field(f, pl)
        return self._lf[k]

    def _lexer_field(self, f, pl):
        ps = [x for x in pl.proj if x != '*']
        k, d, pr = origin(f, pl)
        if k not in ('arg', 'local'):
            return None
        pr = [x for x in pr if x != '*']
        prim = self.primary(f)
        if prim is None or d != prim[1]:
            return None
        base = simple(f.types[d])
        if base == 'Parser':
            if not pr or pr[0][0] != 'f' or pr[0][1] != self.lexf[0]:
                return None
            pr = pr[1:]
        if pr and pr[0][0] == 'f':
            return pr[0][1]
        return None

    # --- transitions
    def move(self, ts, env):
        cur, cs, site = ts
        def m(x):
            return 'X' if x == 1 else x
        for k, v in list(env.items()):
            if isinstance(v, tuple) and v[0] == 'snap':
                env[k] = ('snap', m(v[1]))
        return (1, tuple(m(c) for c in cs), site)

    def stmt(self, f, b, i, s, ts, env):
        if s.kind != 'assign':
            return ts
        # reads
        for o in s.rv.ops:
            if o.place is None:
                continue
            fl = self.lexer_field(f, o.place) if o.place.proj else None
            if fl in self.caches and not (s.rv.kind == 'ref' and s.rv.a == 'mut'):
                if self.read(f, b, fl, ts):
                    return None
        if s.place.proj:
            fl = self.lexer_field(f, s.place)
            if fl == self.pos:
                lab = None
                for o in s.rv.ops:
                    if o.place is not None and isinstance(env.get(o.place.local), tuple) and env[o.place.local][0] == 'snap':
                        lab = env[o.place.local][1]
                if s.rv.kind == 'use' and lab is not None:
                    self.restores.add((f.key, b, i))
                    if lab == 'X':
                        return self.move(ts, env)
                    return (lab, ts[1], ts[2])
                self.moves.add((f.key, b, i))
                return self.move(ts, env)
            if fl in self.caches:
                k = self.caches.index(fl)
                cs = list(ts[1])
                v = None
                if s.rv.kind == 'use' and s.rv.ops[0].place is not None:
                    v = env.get(s.rv.ops[0].place.local)
                elif s.rv.kind == 'use' and 'None' in (s.rv.ops[0].text or ''):
                    v = 0
                elif s.rv.kind == 'agg':
                    v = self.engine.variant_of(s.rv)
                if v == 0:
                    cs[k] = 'E'
                else:
                    cs[k] = ts[0]
                    self.fills.add((f.key, b, i))
                return (ts[0], tuple(cs), ts[2] if any(self.stale(ts[0], c) for c in cs) else None)
        return ts

    @staticmethod
    def stale(cur, c):
        return c != 'E' and c != cur

    def read(self, f, b, fl, ts):
        c = ts[1][self.caches.index(fl)]
        self.reads.add((f.key, b))
        if self.stale(ts[0], c):
            self.ctx.bad('cache read at the position it was filled at', 'stale %s after %s' % (self.names[fl], ts[2] or f.key),
                         '%s reads lookahead cache `%s` that may hold a token from another position (made stale by %s)' % (f.key, self.names[fl], ts[2] or f.key), f.loc(f.blocks[b].term.span))
            return True
        return False

    def value(self, f, b, s, ts, env):
        if s.kind == 'assign' and not s.place.proj and s.rv.kind in ('use', 'agg') and f.key in self.tracks:
            labs = set()
            for o in s.rv.ops:
                if o.place is None:
                    continue
                if o.place.proj and self.lexer_field(f, o.place) == self.pos:
                    labs.add(ts[0])
                v = env.get(o.place.local)
                if isinstance(v, tuple) and v[0] == 'snap':
                    labs.add(v[1])
            if len(labs) == 1 and (s.rv.kind == 'use' or s.rv.a == 'tuple'):
                return ('snap', labs.pop())
        return None

    def label_map(self, ts, env, t):
        """caller label -> callee label"""
        m = {ts[0]: 0, 'E': 'E', 'X': 'X'}
        used = [c for c in ts[1]] + [env[a.place.local][1] for a in t.args if a.place is not None and not a.place.proj
                                     and isinstance(env.get(a.place.local), tuple) and env[a.place.local][0] == 'snap']
        names = iter('abcdefgh')
        for u in used:
            if u not in m:
                m[u] = next(names)
        return m

    def is_primary(self, f, t):
        k = (f.key, id(t))
        if k not in self._ip:
            self._ip[k] = self._is_primary(f, t)
        return self._ip[k]

    def _is_primary(self, f, t):
        prim = self.primary(f)
        if prim is None or not t.args or t.args[0].place is None:
            return False
        k, d, pr = origin(f, t.args[0])
        return k in ('arg', 'local') and d == prim[1]

    def enter(self, f, b, t, g, ts, env):
        self.calls.add((f.key, b))
        if not self.is_primary(f, t):
            return self.fresh() + ((),)
        m = self.label_map(ts, env, t)
        snaps = tuple((g.args[i], m[env[a.place.local][1]]) for i, a in enumerate(t.args) if a.place is not None and not a.place.proj
                      and isinstance(env.get(a.place.local), tuple) and env[a.place.local][0] == 'snap' and i < len(g.args))
        if g.key not in self.touch:      # caches are not looked at: the caller's are kept
            return (0, ('E',) * len(ts[1]), None, tuple((l, x) for l, x in snaps if g.types[l].startswith('(')))
        return (0, tuple(m[c] for c in ts[1]), ts[2], tuple((l, x) for l, x in snaps if g.types[l].startswith('(')))

    def leave(self, f, b, t, g, ts, tin, tout, tag, env):
        if not self.is_primary(f, t):
            return [(ts, tag if not isinstance(tag, tuple) or tag[0] == 'pv' else None)]
        m = self.label_map(ts, env, t)
        inv = {v: k for k, v in m.items()}
        env = dict(env)
        cur, cs, site = tout[:3]
        if g.key not in self.touch:
            cs, site = tuple(m[c] for c in ts[1]), ts[2]
        if isinstance(cur, str) and cur not in inv:      # a position the callee had saved: new to the caller
            ren1 = lambda x: 1 if x == cur else 'X' if x == 1 else x
            cs = tuple(ren1(c) for c in cs)
            if isinstance(tag, tuple) and tag[0] == 'snap':
                tag = ('snap', ren1(tag[1]))
            cur = 1
        used1 = cur == 1 or 1 in cs or (isinstance(tag, tuple) and tag[0] == 'snap' and tag[1] == 1)
        if used1:
            base = self.move(ts, env)
            inv = {v: ('X' if k == 1 else k) for k, v in m.items()}
            inv[1] = 1
        out = (inv.get(cur, 'X'), tuple(inv.get(c, 'X') for c in cs), site)
        st = any(self.stale(out[0], c) for c in out[1])
        if not st:
            out = out[:2] + (None,)
        elif out[2] is None and simple(f.types[self.primary(f)[1]]) == 'Parser' :
            out = out[:2] + ('%s (calling %s)' % (f.key, g.key),)
        if out[0] == 'X':                # back at a position we no longer know anything about
            out = (1, tuple('X' if c == 1 else c for c in out[1]), out[2])
            for k, v in list(env.items()):
                if v == ('snap', 1):
                    env[k] = ('snap', 'X')
        if isinstance(tag, tuple) and tag[0] == 'snap':
            tag = ('snap', inv.get(tag[1], 'X'))
            if tag[1] == 1:              # give the saved position a name of its own
                new = 's%d' % b
                ren = lambda x: new if x == 1 else 'X' if x == new else x
                out = (ren(out[0]), tuple(ren(c) for c in out[1]), out[2])
                for k, v in list(env.items()):
                    if isinstance(v, tuple) and v[0] == 'snap':
                        env[k] = ('snap', ren(v[1]))
                tag = ('snap', new)
        return [(out, tag, tuple(env.items()))]

    def at_return(self, f, b, ts, env):
        return ts[:3]

    def ret(self, f, b, ts, tag):
        if any(x[0] == f.key for x in self.fills) and tag == 0 and any(c != 'E' for c in ts[1]):
            # Ok path of a function that fills a cache: the position must be the one at entry
            if ts[0] != 0:
                self.ctx.bad('filling a cache leaves the position unchanged', 'moved by ' + f.key,
                             '%s fills a lookahead cache but does not return to the position it started from' % f.key, f.loc())

def run(ctx):
    p = ctx.p
    c = Lookahead(ctx)
    eng = Engine(p, c)
    roots = [(f, c.fresh() + ((),)) for f in p.fns if f.kind == 'fn' and f.crate == 'ruruby_parse' and f.self_type == 'Parser'
             and f.trait is None and not f.is_closure and not c.is_method(f)]
    if not any(f.name == 'new' for f, _ in roots):
        raise AnalysisError('Parser::new not found')
    eng.run(roots)
    for kind, s, fl in (('cache read at the position it was filled at', c.reads, 2), ('cache fill sites', c.fills, 2)):
        for x in sorted(s):
            ctx.ok(kind, x[0])
        ctx.floor(kind, fl)
    # tokens stored come from reading at the current position
    for key, b, i in sorted(c.fills):
        f = p.by_key[key]
        names = {t.func.split('::')[-1] for _, t in f.calls() if t.func and 'Lexer' in t.func}
        if not any(n.startswith('read_token') or n == 'get_token' for n in names) and not any('read_token' in (t.func or '') for g in [p.by_key[key]] for _, t in g.calls()):
            ctx.bad('cached token was read from the text', 'fill %s' % key, '%s fills a lookahead cache without reading a token' % key, f.loc())
        else:
            ctx.ok('cached token was read from the text', key)
    ctx.seen('functions analysed', len(eng.functions))
    ctx.seen('function contexts (entry states)', len(eng.table))
    ctx.seen('position writes', len(c.moves))
    ctx.seen('position restores', len(c.restores))
    for x in sorted(c.calls):
        ctx.ok('parser and lexer call entered with coherent lookahead', '%s bb%d' % x)
    ctx.floor('functions analysed', 120)
    ctx.floor('position writes', 8)
    ctx.assume('token text lookup itself (read_token) is a function of the text and the position only')
