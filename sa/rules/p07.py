"""Source positions of raising instructions. The interpreter loop is explored path by path: for every opcode, the distances from the start of
the instruction at which the program counter can stand when the handler gives back an error that is then looked up in the source map, or
pushes a frame out of which such an error can later come. Every function reachable from the code generators is explored path by path: for
every emission site, the distances at which a position is put into the source map. Obligation: at each site the second set covers the first."""
import re
from program import AnalysisError, simple, strip_ref, drop_generics
from flow import const_value, origin, single_def, eval_const
from typestate import Engine
import facts
from rules.p05 import Decode, Encode, run_inst_size

SKIP = 7        # an error the loop handles without looking a position up

def is_fallible_ty(ty):
    return bool(ty) and re.match(r'(?:std|core)::result::Result<', ty) is not None and re.search(r'\bRubyError\s*>$', ty) is not None

class Kinds:
    """which errors are looked up in the source map, and which functions can fail at all"""
    def __init__(self, p):
        self.p = p
        it = [i for i in p.items.get('RubyErrorKind', []) if i.kind == 'enum']
        if not it:
            raise AnalysisError('error kinds not found')
        self.names = [n for n, _ in it[0].variants]
        self.lookups = [f for f in p.fns if f.args and f.kind == 'fn' and any(simple(strip_ref(f.types[a] or '')) == 'ISeqPos' for a in f.args) and
                        any(('ISeqInfo', 'iseq_sourcemap') in facts.fields(p, f, o.place) for b in f.blocks for s in f.blocks[b].stmts if s.kind == 'assign' for o in s.rv.ops if o.place is not None)]
        self._fail, self._only = {}, {}
    def aborting(self):
        """lookups that end the process when there is no entry"""
        return [f for f in self.lookups if any(f.blocks[b].term.kind == 'call' and not f.blocks[b].term.succ for b in f.blocks)
                or any(re.search(r'::(unwrap|expect)$', drop_generics(t.func or '')) for b, t in f.calls())]
    def skipped(self, loop):
        """error kinds for which no lookup follows when the interpreter loop gives them back"""
        p, out = self.p, None
        keys = {f.key for f in self.aborting()}
        self.users = []
        for f in p.fns:
            if f.kind != 'fn' or not any(loop.key in {g.key for g in p.callees(f, t)} for b, t in f.calls()):
                continue
            looks = {b for b, t in f.calls() if t.func and self.looks(p, f, t, keys)}
            if not looks:
                continue
            self.users.append(f)
            runs = {b for b, t in f.calls() if loop.key in {g.key for g in p.callees(f, t)}}
            s = set(range(len(self.names)))
            # only the first test of the kind after the loop has returned decides
            sw = self.kind_switches(f)
            first = [b for b in sw if not any(o != b and self.between(f, runs, o, b, looks) for o in sw)]
            for b in sw:
                t = f.blocks[b].term
                vals = [v for v, _ in t.targets if v not in (None, 'otherwise')]
                for i in range(len(self.names)):
                    d = [x for v, x in t.targets if v == i] or [x for v, x in t.targets if v in (None, 'otherwise')]
                    if b in first and d and not self.reach(f, d[0], looks, runs):
                        continue
                    if b in first:
                        s.discard(i)
            if not first:
                s = set()
            out = s if out is None else out & s
        if out is None:
            raise AnalysisError('no use of the source map after the interpreter loop returns')
        return {self.names[i] for i in out}
    def looks(self, p, f, t, keys, depth=0):
        for g in p.callees(f, t):
            if g.key in keys:
                return True
            if depth < 2 and g.kind == 'fn' and not g.types[0].startswith(('std::result', 'core::result')) and any(self.looks(p, g, u, keys, depth + 1) for b, u in g.calls() if u.func):
                return True
        return False
    def kind_switches(self, f):
        out = []
        for b in f.normal_blocks():
            t = f.blocks[b].term
            if t.kind == 'switch' and t.op.place is not None and not t.op.place.proj:
                d = single_def(f, t.op.place.local)
                if d and d[0] != 'arg' and getattr(d[2], 'kind', '') == 'discr' and 'RubyErrorKind' in (facts.place_type(self.p, f, d[2].ops[0].place) or ''):
                    out.append(b)
        return out
    def reach(self, f, b, goals, stops):
        seen, todo = {b}, [b]
        while todo:
            x = todo.pop()
            if x in goals:
                return True
            if x in stops:
                continue
            for s in f.blocks[x].term.succ:
                if s not in seen and s in f.normal_blocks():
                    seen.add(s)
                    todo.append(s)
        return False
    def between(self, f, runs, o, b, looks):
        """o is met before b on some path from the loop call"""
        return self.reach(f, o, {b}, runs) and not self.reach(f, b, {o}, runs)
    def only(self, g, depth=0):
        """kinds an error constructor can build, None: unknown"""
        r = self._only.get(g.key, 0)
        if r == 0:
            self._only[g.key] = None
            ks, r = set(), None
            if re.search(r'\bRubyError$', g.ret or '') and depth < 4:
                for b in g.blocks:
                    for s in g.blocks[b].stmts:
                        if s.kind == 'assign' and s.rv.kind == 'agg' and s.rv.a in ('variant', 'struct'):
                            m = re.search(r'RubyErrorKind(?:::)?::(\w+)', drop_generics((s.rv.text[0] if isinstance(s.rv.text, tuple) else s.rv.text) or ''))
                            if m:
                                ks.add(m.group(1))
                ok = True
                for b, t in g.calls():
                    if t.dest is not None and re.search(r'\bRubyError$', g.types.get(t.dest.local, '')):
                        hs = self.p.resolve(t.func, g.crate) if t.func else []
                        h = self.only(hs[0], depth + 1) if len(hs) == 1 else None
                        if h is None and not ks:
                            ok = False
                        ks |= h or set()
                r = frozenset(ks) if ks and ok else None
            self._only[g.key] = r
        return r
    def canfail(self, g):
        if not self._fail:
            p = self.p
            fs = [f for f in p.fns if is_fallible_ty(f.ret or f.types.get(0) or '')]
            dep = {}
            for f in fs:
                fail = False
                dep[f.key] = set()
                for b in f.normal_blocks():
                    for s in f.blocks[b].stmts:
                        if s.kind == 'assign' and s.rv.kind == 'agg' and s.rv.a == 'variant' and re.search(r'Result(?:::)?::Err$', drop_generics((s.rv.text if not isinstance(s.rv.text, tuple) else s.rv.text[0]) or '')):
                            fail = True
                    t = f.blocks[b].term
                    if t.kind == 'call' and t.dest is not None and t.succ:
                        ty = f.types.get(t.dest.local) or ''
                        if is_fallible_ty(ty) and 'FromResidual' not in (t.func or ''):
                            gs = p.resolve(t.func, f.crate) if t.func else []
                            if gs and all(is_fallible_ty(x.ret or x.types.get(0) or '') for x in gs):
                                dep[f.key] |= {x.key for x in gs}
                            else:
                                fail = True
                self._fail[f.key] = fail
            ch = True
            while ch:
                ch = False
                for k in dep:
                    if not self._fail[k] and any(self._fail.get(x, True) for x in dep[k]):
                        self._fail[k] = ch = True
        return self._fail.get(g.key, True)

class Raise(Decode):
    """positions at which an opcode can give back an error that is looked up; negative numbers in the sequence move the counter back"""
    def __init__(self, p, kinds, skip):
        super().__init__(p)
        self.k, self.skip = kinds, skip
        self.need = {}      # opcode -> {offset: (function, loc, how)}
        self.errlocs = {}
    def off(self, seq):
        return None if any(k == 'jump' for _, k in seq) else 1 + sum(w for w, _ in seq)
    def want(self, op, seq, f, b, how):
        if op is not None:
            o = self.off(seq)
            self.need.setdefault(op, {}).setdefault(o, (f.key, f.loc(f.blocks[b].term.span), how))
    def call(self, f, b, t, ts, env):
        gs = self.p.resolve(t.func, f.crate) if t.func else []
        op, seq, left = ts[:3]
        if gs and gs[0].self_type == 'ISeqPtr' and gs[0].name in ('add_assign', 'sub_assign') and self.is_pc(f, t.args[0]) and f.key != gs[0].key:
            c = const_value(self.p, t.args[1], f.crate) if t.args[1].place is None else None
            if isinstance(c, int):
                return [((op, seq + ((c if gs[0].name == 'add_assign' else -c, 'step'),), left), None)]
            return [((op, seq + ((0, 'jump'),) if not any(k == 'jump' for _, k in seq) else seq, left), None)]
        rty = f.types.get(t.dest.local) if t.dest is not None and not t.dest.proj else None
        if gs and rty and re.search(r'\bRubyError$', rty):
            ks = [self.k.only(g) for g in gs]
            if all(k is not None and k <= self.skip for k in ks):
                return [(ts, SKIP)]
        r = super().call(f, b, t, ts, env)
        if r is None and gs and is_fallible_ty(rty) and not any(self.k.canfail(g) for g in gs):
            if not any(self.relevant(g) for g in gs):
                return [(ts, 0)]
        return r
    def leave(self, f, b, t, g, ts, tin, tout, tag, env):
        if tag == ('pv', 0, self.invoke) and f.key == self.loop.key:
            self.want(tout[0], tout[1], f, b, 'a frame is entered')
        return super().leave(f, b, t, g, ts, tin, tout, tag, env)
    def at_return(self, f, b, ts, env):
        if f.key == self.loop.key:
            v = env.get(0)
            kind = v[1] if isinstance(v, tuple) and v[0] == 'pv' else v if isinstance(v, int) else None
            if kind != 0 and not (isinstance(v, tuple) and v[0] == 'pv' and v[2] == SKIP):
                self.want(ts[0], ts[1], f, b, 'it gives back an error')
        return ts

class Record(Encode):
    """state: ('done', pending, here, before) between instructions: pending = (opcode, offsets recorded, site) of the finished one as long
    as its end is the current position, or 'P' for one finished before this function was entered; here: a position is recorded for the
    current offset; before: what became of the instruction pending at entry (0: nothing yet, 1: recorded, 2: passed by);
    (opcode, operand bytes so far, offsets recorded, site, before) inside.
    The second component says whether the current position was asked for since the last byte."""
    def __init__(self, p, size, names, need):
        super().__init__(p, size, names)
        self.need = need
        self.recorders, self.askers = set(), set()
        for f in p.fns:
            if f.kind == 'fn' and f.self_type == 'ISeq' and simple(f.types.get(0) or '') == 'ISeqPos' and len(f.args) == 1:
                self.askers.add(f.key)
        rec = set()
        for f in p.fns:
            for b, t in f.calls():
                if self.is_record(f, t):
                    rec.add(f.key)
        if not rec or not self.askers:
            raise AnalysisError('source map construction not found')
        self.recfns = rec
        own = {f.key for f in p.fns if any(t.func and any(g.self_type == 'ISeq' and g.name == 'new' for g in p.resolve(t.func, f.crate)) for b, t in f.calls())}
        self.own = own
        self.rel = facts.reach_callers(p, set(self.pushes) | rec)
        self.emitters = facts.reach_callers(p, set(self.pushes))
        self.carried, calls = set(), facts.call_graph(p)
        self.recursive = {k for k in self.rel if self.reaches(calls, k)}
        self.zero = any(0 in n for n in need.values())
        self.checked, self.missing = {}, {}
    def reaches(self, calls, k):
        seen, todo = set(), [k]
        while todo:
            for c in calls.get(todo.pop(), ()):
                if c == k:
                    return True
                if c not in seen:
                    seen.add(c)
                    todo.append(c)
        return False
    def is_record(self, f, t):
        return re.search(r'Vec::<\((?:\w+::)*ISeqPos, (?:\w+::)*Loc\)>::push$', t.func or '') is not None
    def settle(self, pend):
        """the instruction in front of the current position will get no more entries"""
        if pend is not None and pend != 'P':
            v, recs, site = pend
            for o in self.need.get(v, {}):
                if o is not None and o not in recs:
                    self.missing.setdefault((v, site[0], o), site)
    def passed(self, st):
        """state for the next byte after st: (position recorded here, fate of the instruction pending at entry)"""
        self.settle(st[1])
        return (st[2], 2 if st[1] == 'P' else st[3])
    def call(self, f, b, t, ts, env):
        st, asked = ts[0], ts[1]
        gs = self.p.resolve(t.func, f.crate) if t.func else []
        if gs and gs[0].key in self.askers:
            return [((st, True), None)]
        if self.is_record(f, t) and asked:
            if st[0] == 'done':
                pend, before = st[1], st[3]
                if pend == 'P':
                    pend, before = None, 1
                elif pend:
                    pend = self.trim((pend[0], pend[1] | {self.size[pend[0]]}, pend[2]))
                return [((('done', pend, self.zero, before), False), None)]
            return [(((st[0], st[1], st[2] | {st[1] + 1}, st[3], st[4]), False), None)]
        if gs and gs[0].key in self.pushes:
            w, k, ty = self.pushes[gs[0].key]
            a = t.args[1]
            op = self.opcode(f, a, env) if ty == 'u8' else None
            if op is not None:
                v = op[1]
                here, before = self.passed(st) if st[0] == 'done' else (False, st[4])
                recs = frozenset([0]) if here else frozenset()
                self.emitted.setdefault(v, set()).add(f.key)
                self.sites.add((f.key, b))
                n = self.size.get(v)
                site = (f.key, f.loc(t.span))
                if v in self.need:
                    self.checked.setdefault((v, f.key), set()).add(f.loc(t.span))
                if n is None:
                    return [((('done', None, False, before), False), None)]
                if n == 1:
                    return [((('done', self.trim((v, recs, site)), False, before), False), None)]
                return [(((v, 0, recs, site, before), False), None)]
            if st[0] == 'done':
                here, before = self.passed(st)
                return [((('done', None, False, before), False), None)]
            v, off, recs, site, before = st
            off += w
            if off >= self.size[v] - 1:
                return [((('done', self.trim((v, recs, site)), False, before), False), None)]
            return [(((v, off, recs, site, before), False), None)]
        return None
    def trim(self, pend):
        """only what is still missing matters"""
        v, recs, site = pend
        n = {o for o in self.need.get(v, {}) if o is not None}
        return None if n <= recs else (v, frozenset(recs & n), site)
    def enter(self, f, b, t, g, ts, env):
        ps = super().enter(f, b, t, g, ts, env)[-1]
        st = ts[0]
        if g.key in self.own:
            return (('done', None, False, 0), False, ps)
        asked = ts[1] and g.key not in self.emitters
        if st[0] == 'done':
            return (('done', 'P' if st[1] else None, st[2], 0), asked, ps)
        return (st[:4] + (0,), asked, ps)
    def at_return(self, f, b, ts, env):
        v = env.get(0)
        if (v[1] if isinstance(v, tuple) and v[0] == 'pv' else v) == 1 and f.types.get(0, '').startswith(('std::result', 'core::result')):
            return (('done', None, False, 0), False)        # compilation has failed
        st = ts[0]
        if st[0] == 'done' and st[1] not in (None, 'P') and f.key in self.recursive:
            # keep the number of sites followed out of the mutually recursive generators small
            self.carried.add(st[1][0::2])
            if len(self.carried) > 8:
                self.settle(st[1])
                st = ('done', None) + st[2:]
        return (st, False)
    def leave(self, f, b, t, g, ts, tin, tout, tag, env):
        st, o = ts[0], tout[0]
        if g.key in self.own:
            if tag != 1:
                self.settle(o[1] if o[0] == 'done' else None)
            return [((st, False), tag)]
        if o[0] != 'done':
            before, pend = (o[4], None) if st[0] == 'done' else (0, None)
            bf = st[3] if st[0] == 'done' else st[4]
            if st[0] == 'done' and st[1]:
                if o[4] == 2:
                    bf = self.passed(st)[1]
            return [((o[:4] + (bf,), False), tag)]
        if st[0] != 'done':
            return [((o[:3] + (st[4],), False), tag)]
        bf, pend = st[3], o[1]
        if o[3] == 2:
            bf = self.passed(st)[1]
        elif o[3] == 1:
            if st[1] == 'P':
                bf = 1
            else:
                x = self.trim((st[1][0], st[1][1] | {self.size[st[1][0]]}, st[1][2]))
                if pend is None:
                    pend = x
        elif pend == 'P':
            pend = st[1]
        return [((('done', pend, o[2], bf), False), tag)]

def run(ctx):
    p = ctx.p
    names = {}
    for f in p.fns:
        if f.kind != 'fn' and f.self_type == 'Inst':
            v = eval_const(p, f)
            if isinstance(v, int):
                names.setdefault(v, f.name)
    sz = p.find('Inst', 'inst_size')
    if len(sz) != 1 or len(names) < 80:
        raise AnalysisError('instruction table not found')
    size = {v: r for v in range(256) for r in [run_inst_size(p, sz[0], v)] if isinstance(r, int)}
    kinds = Kinds(p)
    if not kinds.lookups:
        raise AnalysisError('no lookup in the source map found')
    ab = kinds.aborting()
    if not ab:
        for f in kinds.lookups:
            ctx.ok('lookups that tolerate a missing position', f.key)
        ctx.notes.append('no lookup in the source map can abort: nothing else to show')
        return
    loop = p.find('VM', 'run_context_main')[0]
    skip = kinds.skipped(loop)
    for f in kinds.users:
        ctx.seen('uses of the source map after the interpreter loop', 1)
    d = Raise(p, kinds, skip)
    eng = Engine(p, d)
    eng.run([(d.loop, (None, (), False))])
    if not d.ops or len(d.need) < 40:
        raise AnalysisError('only %d opcodes can raise' % len(d.need))
    e = Record(p, size, names, d.need)
    calls = facts.call_graph(p)
    called = set().union(*calls.values())
    roots = [(f, (('done', None, False, 0), False, ())) for f in p.fns if f.key in e.rel and f.key not in e.pushes and f.key not in d.rel and (f.key not in called or f.key in e.own)]
    en2 = Engine(p, e)
    en2.run(roots)
    for (k, tin), outs in en2.table.items():
        if k in {f.key for f, _ in roots}:
            for out, tag in outs:
                if tag != 1:
                    e.settle(out[0][1] if out[0][0] == 'done' else None)
    for v in sorted(d.need):
        nm = names.get(v, str(v))
        for o, (fk, loc, how) in sorted(d.need[v].items(), key=repr):
            if o is None:
                if v in e.emitted:
                    ctx.bad('raising positions', '%s after a jump' % nm, '%s: %s after the program counter has been moved by a displacement, a position that belongs to another instruction' % (nm, how), loc)
            elif v in e.emitted:
                ctx.ok('raising positions', '%s+%d: %s' % (nm, o, how))
    badk = {}
    for (v, fk, o), site in e.missing.items():
        badk.setdefault((v, fk), []).append((o, site))
    for (v, fk), locs in sorted(e.checked.items()):
        if v not in d.need:
            continue
        nm = names.get(v, str(v))
        if (v, fk) in badk:
            for o, site in sorted(badk[(v, fk)], key=repr):
                how = d.need[v][o]
                ctx.bad('recorded positions', '%s emitted in %s at %d' % (nm, fk, o), '%s emits %s without recording the source position at distance %d from its start, where %s (%s)' % (fk, nm, o, how[2], how[1]), site[1])
        else:
            for l in sorted(locs):
                ctx.ok('recorded positions', '%s in %s' % (nm, fk))
    ctx.seen('interpreter functions analysed', len(eng.functions))
    ctx.seen('encoder functions analysed', len(en2.functions))
    ctx.seen('opcodes that can raise', len(d.need))
    ctx.assume('errors of kind %s are dealt with by the interpreter loop before any position is looked up' % ', '.join(sorted(skip)))
    ctx.floor('recorded positions', 40)
    ctx.floor('raising positions', 40)
