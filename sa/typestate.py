"""Interprocedural typestate engine. Path-sensitive in the variant of Result/Option/ControlFlow values and in boolean flags,
context-sensitive in the abstract state at function entry. A client supplies the abstract state and its transitions."""
import re
from program import AnalysisError, simple, strip_ref, drop_generics
from flow import live_in, uses_in, const_value

BRANCH = re.compile(r'as (?:std|core)::ops::Try>::branch$')
RESID = re.compile(r'as (?:std|core)::ops::FromResidual')
COPYTAG = re.compile(r'(Result|Option)::(?:<.*>::)?(map|map_err|as_ref|as_mut|cloned|copied|as_deref|as_deref_mut|inspect)(::<.*>)?$|<.* as std::clone::Clone>::clone$')
UNWRAP = re.compile(r'(?:std|core)::(result::Result|option::Option)::<.*>::(unwrap|expect|unwrap_unchecked)$')
ISX = re.compile(r'(?:std|core)::(result::Result|option::Option)::<.*>::(is_ok|is_err|is_some|is_none)$')
OKOR = re.compile(r'(?:std|core)::option::Option::<.*>::(ok_or|ok_or_else)(::<.*>)?$')
TOOPT = re.compile(r'(?:std|core)::result::Result::<.*>::(ok|err)$')
VARIDX = {'Ok': 0, 'Err': 1, 'None': 0, 'Some': 1, 'Continue': 0, 'Break': 1}

def drop_flags(f):
    """compiler-made booleans that only decide whether a moved-out local still has to be dropped"""
    d = getattr(f, '_dropflags', None)
    if d is None:
        from flow import defs
        cand = set()
        for l, ds in defs(f).items():
            if f.types.get(l) == 'bool' and l not in f.args and l not in f.names and \
                    all(x[0] != 'arg' and getattr(x[2], 'kind', '') == 'use' and x[2].ops[0].kind == 'const' for x in ds):
                cand.add(l)
        bad = set()
        for b in f.blocks:
            blk = f.blocks[b]
            for s in blk.stmts:
                if s.kind == 'assign':
                    for o in s.rv.ops:
                        if o.place is not None and o.place.local in cand:
                            bad.add(o.place.local)
            t = blk.term
            if t.kind == 'switch' and t.op.place is not None and t.op.place.local in cand:
                if not any(f.blocks[x].term.kind == 'drop' and not any(s.kind == 'assign' for s in f.blocks[x].stmts) for x in t.succ):
                    bad.add(t.op.place.local)
        d = frozenset(cand - bad)
        f._dropflags = d
    return d

class Client:
    """default client: nothing relevant, nothing changes"""
    params = False      # True: the last component of an entry state describes parameters and is dropped after entry
    enums = frozenset() # program enums whose variants are tracked like those of Result
    def relevant(self, g):
        return False
    def entry_env(self, f, ts):
        return ()
    def stmt(self, f, b, i, s, ts, env):
        return ts
    def call(self, f, b, t, ts, env):
        return None
    def enter(self, f, b, t, g, ts, env):
        return ts
    def leave(self, f, b, t, g, ts, ts_in, ts_out, tag, env):
        """state (and optional tag, env) in the caller after callee g, entered with ts_in, finished with ts_out"""
        return [(ts_out, tag)]
    def switch_tag(self, f, b, tag, k, vals, ts, env):
        """state on the edge of a switch on a client-tagged value: k is the case (None: otherwise); None: edge infeasible"""
        return ts
    def value(self, f, b, s, ts, env):
        """client tag for the local assigned by statement s (None: engine decides)"""
        return None
    def ret(self, f, b, ts, tag):
        pass
    def at_return(self, f, b, ts, env):
        return ts
    def note(self, f, b, t, ts):
        pass

class Engine:
    LIMIT = 400
    def __init__(self, prog, client):
        self.p, self.c = prog, client
        self.table = {}          # (key, ts_in) -> set((ts_out, tag))
        self.deps = {}           # (key, ts_in) -> set of callers' (key, ts_in)
        self.pending = []
        self.inpend = set()
        self.functions = set()
        self.steps = 0
        self._cls = {}
        self._ncall = {}
        self.merged = set()
        client.engine = self

    def run(self, roots):
        """roots: [(fn, ts_in)]"""
        for f, ts in roots:
            self._need(f, ts)
        while self.pending:
            k = self.pending.pop()
            self.inpend.discard(k)
            self._analyse(k)
        return self

    def _need(self, f, ts, caller=None):
        k = (f.key, ts)
        if k not in self.table:
            self.table[k] = set()
            self.inpend.add(k)
            self.pending.append(k)
        if caller is not None:
            self.deps.setdefault(k, set()).add(caller)
        return self.table[k]

    def _live(self, f):
        l = getattr(f, '_livein', None)
        if l is None:
            l = live_in(f)
            f._livein = l
        return l

    def _analyse(self, k):
        f = self.p.by_key[k[0]]
        self.functions.add(f.key)
        self.cur = k
        live = self._live(f)
        IN = {0: {(k[1][:-1] if self.c.params else k[1], self.c.entry_env(f, k[1]))}}
        new = {0: set(IN[0])}
        work = [0]
        res = set()
        while work:
            b = work.pop()
            elems = new.pop(b, None)
            if not elems:
                continue
            self.steps += len(elems)
            if self.steps > 20000000:
                raise AnalysisError('typestate analysis does not converge (in %s)' % f.key)
            for s, out in self._block(f, b, elems, res, live).items():
                old = IN.setdefault(s, set())
                d = out - old
                if not d:
                    continue
                if len(old) + len(d) > self.LIMIT:
                    self.merged.add(f.key)
                    d = {(ts, ()) for ts, env in d} - old
                    if not d:
                        continue
                old |= d
                if s in new:
                    new[s] |= d
                else:
                    new[s] = d
                    work.append(s)
        if not res <= self.table[k]:
            self.table[k] |= res
            for c in self.deps.get(k, ()):
                if c not in self.inpend:
                    self.inpend.add(c)
                    self.pending.append(c)

    def _block(self, f, b, elems, res, live):
        out = {}
        blk = f.blocks[b]
        for ts0, env0 in elems:
            states = [(ts0, dict(env0))]
            for i, s in enumerate(blk.stmts):
                nxt = []
                for ts, env in states:
                    r = self.c.stmt(f, b, i, s, ts, env)
                    if r is None:
                        continue
                    for t2 in (r if isinstance(r, list) else [r]):
                        e2 = dict(env) if isinstance(r, list) and len(r) > 1 else env
                        cv = self.c.value(f, b, s, t2, e2)
                        self._env_stmt(f, s, e2)
                        if cv is not None and s.kind == 'assign' and not s.place.proj:
                            e2[s.place.local] = cv
                        nxt.append((t2, e2))
                states = nxt
            for ts, env in states:
                self._term(f, b, blk.term, ts, env, out, res, live)
        return out

    def _kill(self, env, l):
        if not env:
            return
        env.pop(l, None)
        for k in [k for k, v in env.items() if isinstance(v, tuple) and v[0] in ('alias', 'not') and v[1] == l]:
            env.pop(k)

    def _env_stmt(self, f, s, env):
        if s.kind == 'assign':
            if s.place.proj:
                if s.place.proj[0] != '*':
                    # partial write keeps the variant except for set_discriminant, not used
                    pass
                return
            l = s.place.local
            rv = s.rv
            v = None
            if rv.kind == 'use':
                o = rv.ops[0]
                if o.kind == 'const':
                    if o.text in ('true', 'false') and o.path is None:
                        v = int(o.text == 'true')
                    else:
                        m = re.search(r'::(None|Ok|Err|Some)\b', o.text or '')
                        if o.text and re.match(r'(?:std|core)::option::Option::<.*>::None$', o.text):
                            v = 0
                elif o.place is not None and not o.place.proj:
                    v = env.get(o.place.local)
                    if v is None and f.types.get(l) == 'bool' and o.kind == 'copy':
                        v = ('alias', o.place.local)
                elif o.place is not None and len(o.place.proj) == 2 and o.place.proj[0][0] == 'as' and o.place.proj[1][0] == 'f':
                    w = env.get(o.place.local)
                    if isinstance(w, tuple) and w[0] == 'pv':
                        v = w[2]
            elif rv.kind == 'agg':
                v = self.variant_of(rv)
                if v is not None and len(rv.ops) == 1:
                    o = rv.ops[0]
                    w = None
                    if o.kind == 'const' and o.text in ('true', 'false') and o.path is None:
                        w = int(o.text == 'true')
                    elif o.place is not None and not o.place.proj:
                        w = env.get(o.place.local)
                    if isinstance(w, int):
                        v = ('pv', v, w)
            elif rv.kind == 'discr':
                pl = rv.ops[0].place
                if not pl.proj or all(x == '*' for x in pl.proj):
                    w = env.get(pl.local)
                    v = w if isinstance(w, int) else w[1] if isinstance(w, tuple) and w[0] == 'pv' else ('alias', pl.local)
            elif rv.kind == 'ref' or rv.kind == 'fake':
                pl = rv.ops[0].place
                if not pl.proj and isinstance(env.get(pl.local), int) and rv.kind == 'ref':
                    v = env.get(pl.local)
            elif rv.kind == 'un' and rv.a == 'Not':
                o = rv.ops[0]
                if o.place is not None and not o.place.proj:
                    w = env.get(o.place.local)
                    if w in (0, 1):
                        v = 1 - w
                    elif w is None:
                        v = ('not', o.place.local)
                    elif isinstance(w, tuple) and w[0] in ('alias', 'not'):
                        v = ('not' if w[0] == 'alias' else 'alias', w[1])
            self._kill(env, l)
            if v is not None and l not in drop_flags(f):
                env[l] = v
        elif s.kind == 'dead' and getattr(s, 'place', None) is not None:
            self._kill(env, s.place.local)

    def variant_of(self, rv):
        if rv.a != 'variant':
            return None
        t = drop_generics(rv.text or '')
        if self.c.enums:
            m = re.search(r'(\w+)(?:::)?::(\w+)$', t)
            if m and m.group(1) in self.c.enums:
                for it in self.p.items.get(m.group(1), []):
                    if it.kind == 'enum':
                        ns = [n for n, _ in it.variants]
                        return ns.index(m.group(2)) if m.group(2) in ns else None
        m = re.search(r'(?:Result|Option|ControlFlow)(?:::)?::(Ok|Err|Some|None|Continue|Break)$', t)
        return VARIDX[m.group(1)] if m else None

    def _emit(self, f, succ, ts, env, out, live):
        lv = live.get(succ, ())
        e = tuple(sorted(((k, v) for k, v in env.items() if k in lv or k == 0), key=repr))
        out.setdefault(succ, set()).add((ts, e))

    def _term(self, f, b, t, ts, env, out, res, live):
        if t.kind == 'return':
            v = env.get(0)
            v = v if isinstance(v, int) or (isinstance(v, tuple) and v[0] not in ('alias', 'not')) else None
            ts = self.c.at_return(f, b, ts, env)
            self.c.ret(f, b, ts, v[1] if isinstance(v, tuple) and v[0] == 'pv' else v)
            res.add((ts, v))
            return
        if t.kind == 'switch':
            o = t.op
            l = o.place.local if o.place is not None and not o.place.proj else None
            v = env.get(l) if l is not None else None
            vals = [k for k, _ in t.targets if k is not None and k != 'otherwise']
            client_tag = isinstance(v, tuple) and v[0] not in ('alias', 'not', 'pv')
            for k, dst in t.targets:
                other = k is None or k == 'otherwise'
                if client_tag:
                    e2 = dict(env)
                    t2 = self.c.switch_tag(f, b, v, None if other else k, vals, ts, e2)
                    if t2 is not None:
                        self._emit(f, dst, t2, e2, out, live)
                    continue
                if isinstance(v, int):
                    if (other and v in vals) or (not other and k != v):
                        continue
                    self._emit(f, dst, ts, env, out, live)
                    continue
                e2 = dict(env)
                kk = k
                if other and len(vals) == 1 and vals[0] in (0, 1):
                    kk = 1 - vals[0]     # two-variant enums and bools
                    other = False
                if not other and l is not None:
                    if isinstance(v, tuple) and v[0] == 'alias':
                        w = e2.get(v[1])
                        if not isinstance(w, tuple) or w[0] in ('alias', 'not', 'pv'):
                            e2[v[1]] = kk
                    elif isinstance(v, tuple) and v[0] == 'not' and kk in (0, 1):
                        e2[v[1]] = 1 - kk
                    elif f.types.get(l) in ('bool', 'isize'):
                        e2[l] = kk
                    t2 = self.c.refine(f, b, o, kk, ts, e2) if hasattr(self.c, 'refine') else ts
                    if t2 is None:
                        continue
                    self._emit(f, dst, t2, e2, out, live)
                else:
                    self._emit(f, dst, ts, e2, out, live)
            return
        if t.kind == 'call':
            if not t.succ:
                self.c.call(f, b, t, ts, env)
                return
            for r in self._call(f, b, t, ts, env):
                ts2, tag = r[0], r[1]
                e2 = dict(r[2]) if len(r) > 2 else dict(env)
                d = t.dest
                if not d.proj:
                    self._kill(e2, d.local)
                    if tag is not None:
                        e2[d.local] = tag
                self._emit(f, t.succ[0], ts2, e2, out, live)
            return
        for s in t.succ:
            self._emit(f, s, ts, env, out, live)

    def _argtag(self, t, i, env):
        if i < len(t.args) and t.args[i].place is not None and not t.args[i].place.proj:
            v = env.get(t.args[i].place.local)
            return v if isinstance(v, int) else v[1] if isinstance(v, tuple) and v[0] == 'pv' else None
        return None

    def _argpay(self, t, i, env):
        if i < len(t.args) and t.args[i].place is not None and not t.args[i].place.proj:
            v = env.get(t.args[i].place.local)
            return v[2] if isinstance(v, tuple) and v[0] == 'pv' else None

    def _classify(self, fn):
        r = self._cls.get(fn)
        if r is None:
            r = (None, None)
            if BRANCH.search(fn):
                r = ('branch', fn.startswith('<std::option::Option') or fn.startswith('<core::option::Option'))
            elif RESID.search(fn):
                r = ('resid', fn.startswith('<std::option::Option'))
            elif UNWRAP.search(fn):
                r = ('unwrap', 'option' in UNWRAP.search(fn).group(1))
            elif ISX.search(fn):
                r = ('isx', ISX.search(fn).group(2))
            elif OKOR.search(fn):
                r = ('okor', None)
            elif COPYTAG.search(fn):
                r = ('copytag', None)
            elif TOOPT.search(fn):
                r = ('toopt', fn.endswith('::ok'))
            self._cls[fn] = r
        return r

    def _call(self, f, b, t, ts, env):
        r = self.c.call(f, b, t, ts, env)
        if r is not None:
            return r
        kind, opt = self._classify(t.func or '')
        v = self._argtag(t, 0, env) if kind else None
        base = [(ts, None)]
        if kind == 'branch':
            if v is None:
                return [(ts, 0), (ts, 1)]
            w = self._argpay(t, 0, env)
            r = (1 - v) if opt else v
            return [(ts, r if w is None or r else ('pv', r, w))]
        if kind == 'resid':
            return [(ts, 0 if opt else 1)]
        if kind == 'unwrap':
            return [] if v == (0 if opt else 1) else [(ts, self._argpay(t, 0, env))]
        if kind == 'isx':
            if v is None:
                return [(ts, None)]
            return [(ts, int({'is_ok': v == 0, 'is_err': v == 1, 'is_some': v == 1, 'is_none': v == 0}[opt]))]
        if v is not None:
            if kind == 'okor' or (kind == 'toopt' and opt):
                base = [(ts, 1 - v)]
            elif kind in ('copytag', 'toopt'):
                base = [(ts, v)]
        nc = self._ncall.get((f.key, b))
        if nc is None:
            direct = [g for g in self.p.resolve(t.func, f.crate)] if t.func else []
            nc = ([g for g in direct if self.c.relevant(g)], [g for g in self.p.callees(f, t) if g not in direct and self.c.relevant(g)])
            self._ncall[(f.key, b)] = nc
        rel, clos = nc
        if rel:
            o = set()
            for g in rel:
                tin = self.c.enter(f, b, t, g, ts, env)
                if tin is None:
                    o.add((ts, None))
                    continue
                for tout, tag in list(self._need(g, tin, self.cur)):
                    for x in self.c.leave(f, b, t, g, ts, tin, tout, tag, env):
                        o.add(x)
            return o
        if clos:
            # a library function may run a closure it is given any number of times
            seen = {ts}
            todo = [ts]
            while todo:
                x = todo.pop()
                for g in clos:
                    tin = self.c.enter(f, b, t, g, x, env)
                    if tin is None:
                        continue
                    for tout, tag in list(self._need(g, tin, self.cur)):
                        for y in self.c.leave(f, b, t, g, x, tin, tout, tag, env):
                            y = y[0]
                            if y not in seen:
                                seen.add(y)
                                todo.append(y)
            tag = base[0][1]
            return {(x, tag) for x in seen}
        return base

