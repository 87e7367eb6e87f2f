"""Cached lookups: every mutation of what a lookup depends on is paired with a version bump before the next lookup can happen."""
import re
from program import AnalysisError, simple
from flow import defs, dominators, dominates, expr, origin
from typestate import Engine, Client
import facts, ruby

FRESH = ('fresh', '')

def fresh_summaries(p):
    """per function: where the object it returns comes from"""
    c = getattr(p, '_freshsum', None)
    if c is not None:
        return c
    base = {f.key for f in p.fns if f.name == 'pack' or (f.name == 'shallow_dup' and f.self_type in ('Value', 'RValue'))}
    if not base:
        raise AnalysisError('object allocation primitive not found')
    s = {k: {FRESH} for k in base}
    cand = [f for f in p.fns if f.kind == 'fn' and simple(f.types.get(0, '')) in ('Module', 'Value') or (f.kind == 'fn' and re.search(r'Result<(?:\w+::)*(Module|Value)\b', f.types.get(0, '')))]
    cand = [f for f in cand if f.key not in base]
    for f in cand:
        s[f.key] = set()
    for _ in range(8):
        ch = False
        for f in cand:
            r = facts.sources(p, f, 0, summaries=s)
            if r != s[f.key]:
                s[f.key] = r
                ch = True
        if not ch:
            break
    p._freshsum = s
    return s

class Versions(Client):
    """states: 'V' no cached result can exist yet; 'C' nothing outstanding; 'B' bumped, no lookup since; ('D', fn, field) changed and not bumped"""
    def __init__(self, p, deps, freshable, version, fills, virgin):
        self.p, self.deps, self.freshable, self.version, self.virgin = p, deps, freshable, version, virgin
        self.summ = fresh_summaries(p)
        self.mut = {}
        for f in p.fns:
            for b, i, pl, fld, how in facts.mutations(p, f, deps):
                self.mut.setdefault(f.key, {}).setdefault((b, i), []).append((pl, fld, how))
        self.bump = {}
        for f in p.fns:
            for b, i, pl, fld, how in facts.mutations(p, f, {version}):
                self.bump.setdefault(f.key, {})[(b, i)] = how
        if not self.bump:
            raise AnalysisError('no update of %s.%s found' % version)
        mr = facts.may_run(p)
        self.loop = {f.key for f in p.find('VM', 'run_context_main')}
        calls = facts.call_graph(p)
        self.fills = facts.reach_callers(p, fills) | mr
        base = set(self.mut) | set(self.bump)
        rel = set(base)
        ch = True
        stop = self.loop | {f.key for f in p.find('VM', 'exec_native')}
        while ch:
            ch = False
            for k, cs in calls.items():
                if k not in rel and (cs - stop) & rel:
                    rel.add(k)
                    ch = True
        self.rel = rel
        self.stop = stop
        self.viol, self.sites, self.discharged = {}, {}, set()
    def relevant(self, g):
        return g.key in self.rel and g.key not in self.stop
    def is_fresh(self, f, pl, args):
        s = facts.sources(self.p, f, pl.local, summaries=self.summ)
        return bool(s) and all(x == FRESH or (x[0] == 'arg' and x[1] in args) for x in s)
    def touch(self, f, b, i, ts, env):
        s = ts[0]
        if (b, i) in self.bump.get(f.key, {}):
            s = 'V' if s == 'V' else 'B'
        for pl, fld, how in self.mut.get(f.key, {}).get((b, i), ()):
            if fld in self.freshable and self.is_fresh(f, pl, ts[1]):
                self.sites.setdefault((f.key, b, i, fld), 'object created by the same operation')
                continue
            self.sites.setdefault((f.key, b, i, fld), how)
            if s == 'C':
                s = ('D', f.key, '%s.%s' % fld)
        return (s, ts[1])
    def stmt(self, f, b, i, s, ts, env):
        if s.kind == 'assign' and s.rv.kind == 'agg' and s.rv.a == 'struct' and s.rv.text and simple(s.rv.text[0]) == self.virgin:
            return ('V', ts[1])
        return self.touch(f, b, i, ts, env)
    def call(self, f, b, t, ts, env):
        n = len(f.blocks[b].stmts)
        ts2 = self.touch(f, b, n, ts, env)
        gs = self.p.callees(f, t) if t.func else []
        if any(self.relevant(g) for g in gs):
            return None if ts2 == ts else None
        if not t.func or any(g.key in self.fills for g in gs):
            return [(self.lookup(f, b, t, ts2), None)]
        if ts2 != ts:
            return [(ts2, None)]
        return None
    def lookup(self, f, b, t, ts):
        s = ts[0]
        if isinstance(s, tuple):
            self.viol.setdefault(s[1:], ('a lookup can happen in %s before the version is bumped' % f.key, f.loc(t.span)))
            return ('C', ts[1])
        return ('C', ts[1]) if s in ('B', 'V') else ts
    def enter(self, f, b, t, g, ts, env):
        fr = []
        for i, a in enumerate(t.args):
            if i < len(g.args) and a.place is not None and simple(g.types[g.args[i]]) in ('Module', 'Value', 'ClassInfo', 'ClassFlags'):
                if self.is_fresh(f, a.place, ts[1]):
                    fr.append(g.args[i])
        return (ts[0], tuple(fr))
    def leave(self, f, b, t, g, ts, tin, tout, tag, env):
        return [((tout[0], ts[1]), tag)]

def run(ctx, deps, freshable, version, fills, virgin, what):
    p = ctx.p
    c = Versions(p, deps, freshable, version, fills, virgin)
    nat = ruby.natives(p)
    calls = facts.call_graph(p)
    called = set().union(*calls.values())
    roots = []
    for f in p.fns:
        if f.key not in c.rel:
            continue
        if f.key in nat or f.key in c.stop or f.key not in called or (f.is_closure and f.key not in called):
            roots.append((f, ('C', ())))
    eng = Engine(p, c)
    eng.run(roots)
    for k in [k for k in eng.table if k[0] in {f.key for f, _ in roots}]:
        if k[1][0] != 'C':
            continue
        for out, tag in eng.table[k]:
            if isinstance(out[0], tuple):
                g = p.by_key[k[0]]
                c.viol.setdefault(out[0][1:], ('%s finishes without bumping the version' % k[0], g.loc()))
    unreached = [(k, x) for k in c.mut for x in c.mut[k] if not any(s[0] == k and s[1:3] == x for s in c.sites)]
    for k, x in unreached:
        ctx.bad('%s mutation sites' % what, 'unanalysed %s' % k, '%s changes %s but is not reached from any entry point the analysis knows' % (k, c.mut[k][x][0][1]), p.by_key[k].loc())
    bad = {v[0] for v in c.viol}
    for (k, b, i, fld), how in sorted(c.sites.items()):
        if k not in bad:
            ctx.ok('%s mutation sites' % what, '%s: %s.%s (%s)' % (k, fld[0], fld[1], how))
    for (k, fld), (msg, loc) in sorted(c.viol.items()):
        names = ruby.ruby_names(p)
        ctx.bad('%s mutation sites' % what, '%s changed in %s: %s' % (fld, k, msg), '%s changes %s, and %s' % (k, fld, msg), loc)
    # the version only ever grows
    for k, sites in sorted(c.bump.items()):
        f = p.by_key[k]
        for (b, i), how in sites.items():
            ok = False
            if i < len(f.blocks[b].stmts):
                s = f.blocks[b].stmts[i]
                ok = grows(p, f, s, version)
            (ctx.ok('version updates are increments', k) if ok else
             ctx.bad('version updates are increments', 'version update in %s' % k, '%s sets %s.%s to something other than its successor' % (k, version[0], version[1]), f.loc()))
    ctx.seen('functions analysed', len(eng.functions))
    ctx.seen('entry points', len(roots))
    return c, eng

def grows(p, f, s, version):
    e = s.rv
    if e.kind == 'use' and e.ops[0].place is not None:
        k, d, pr = origin(f, e.ops[0])
        if k == 'rv':
            e = d
        else:
            return False
    if e.kind == 'bin' and e.a in ('Add', 'CheckedAdd', 'AddWithOverflow'):
        from flow import const_value
        v = [const_value(p, o, f.crate) if o.place is None else None for o in e.ops]
        src = [o.place is not None and (version in facts.fields(p, f, o.place) or version in [x for x in src_fields(p, f, o)]) for o in e.ops]
        return (src[0] and isinstance(v[1], int) and v[1] > 0) or (src[1] and isinstance(v[0], int) and v[0] > 0)
    if e.kind == 'call':
        return False
    return False

def src_fields(p, f, o):
    """struct fields an operand is read from (through copies and references)"""
    out = []
    seen = set()
    todo = [o.place] if o.place is not None else []
    while todo:
        pl = todo.pop()
        out += facts.fields(p, f, pl)
        if pl.local in seen:
            continue
        seen.add(pl.local)
        for d in defs(f).get(pl.local, []):
            if d[0] == 'arg':
                continue
            rv = d[2]
            if not hasattr(rv, 'func') and rv.kind in ('use', 'ref', 'cast', 'addr', 'fake'):
                todo += [x.place for x in rv.ops if x.place is not None]
            elif hasattr(rv, 'func') and rv.args and facts.last_seg(rv.func) in ('clone', 'deref', 'id', 'as_ref', 'unwrap', 'cloned', 'copied', 'index', 'get', 'branch'):
                todo += [x.place for x in rv.args if x.place is not None]
    return out

def guarded_payloads(ctx, entry, payload, keys, what):
    """every use of a cached payload happens only where the entry's keys were found equal to the current ones"""
    p = ctx.p
    n = 0
    for f in p.fns:
        if f.trait in ('Debug', 'Clone', 'PartialEq', 'Hash', 'Default', 'Eq') or f.kind != 'fn':
            continue
        reads = []
        for b, i, s in f.stmts():
            if s.kind != 'assign':
                continue
            for o in s.rv.ops:
                if o.place is not None and (entry, payload) in facts.fields(p, f, o.place):
                    reads.append((b, i, s))
        if not reads:
            continue
        # follow the payload forward to places where it is used for something else than a copy
        carriers = set()
        for b, i, s in reads:
            if s.kind == 'assign' and not s.place.proj and s.rv.kind in ('use', 'ref', 'cast', 'discr', 'fake'):
                if s.rv.kind not in ('discr', 'fake'):
                    carriers.add(s.place.local)
        ch = True
        while ch:
            ch = False
            for b, i, s in f.stmts():
                if s.kind == 'assign' and not s.place.proj and s.place.local not in carriers and s.place.local != 0 and s.rv.kind in ('use', 'ref', 'cast') and s.rv.ops[0].place is not None \
                        and s.rv.ops[0].place.local in carriers:
                    carriers.add(s.place.local)
                    ch = True
        uses = []
        for b, i, s in f.stmts():
            if s.kind != 'assign' or s.rv.kind in ('discr', 'fake'):
                continue
            for o in s.rv.ops:
                if o.place is None:
                    continue
                direct = (entry, payload) in facts.fields(p, f, o.place)
                if (direct or o.place.local in carriers) and not (not s.place.proj and s.place.local in carriers and s.rv.kind in ('use', 'ref', 'cast')):
                    uses.append((b, s.span))
        for b, t in f.calls():
            for a in t.args:
                if a.place is not None and (a.place.local in carriers or (entry, payload) in facts.fields(p, f, a.place)):
                    uses.append((b, t.span))
        facts_ = eq_edges(p, f)
        for b, span in uses:
            n += 1
            missing = []
            for k in keys:
                if not any(edge_dominates(f, e, b) for e, flds in facts_ if (entry, k) in flds):
                    missing.append(k)
            if missing:
                ctx.bad('%s hits are validated' % what, '%s.%s used in %s without comparing %s' % (entry, payload, f.key, '/'.join(missing)),
                        '%s uses the cached %s.%s on a path where the entry\'s %s was not found equal to the current one' % (f.key, entry, payload, ' and '.join(missing)), f.loc(span))
            else:
                ctx.ok('%s hits are validated' % what, '%s: %s.%s' % (f.key, entry, payload))
    return n

def cond_fields(p, f, op, neg=False, depth=0):
    """[(sense, set of fields)] equalities established when op is true/false: list of (truth value of op, fields compared)"""
    if op.place is None or op.place.proj or depth > 6:
        return []
    out = []
    for d in defs(f).get(op.place.local, []):
        if d[0] == 'arg':
            return []
        rv = d[2]
        if hasattr(rv, 'func'):
            ls = facts.last_seg(rv.func)
            if ls in ('eq', 'ne') and len(rv.args) == 2:
                fl = set(src_fields(p, f, rv.args[0])) | set(src_fields(p, f, rv.args[1]))
                out.append(((ls == 'eq') != neg, fl))
            elif p.resolve(rv.func, f.crate):
                # a helper: equalities established by its returning true
                g = p.resolve(rv.func, f.crate)[0]
                fl = set()
                for e, flds in eq_edges(p, g) + direct_eq_return(p, g):
                    fl |= flds
                if fl and len(p.resolve(rv.func, f.crate)) == 1 and helper_conj(p, g):
                    out.append((not neg, fl))
        elif rv.kind == 'bin' and rv.a in ('Eq', 'Ne'):
            fl = set(src_fields(p, f, rv.ops[0])) | set(src_fields(p, f, rv.ops[1]))
            out.append(((rv.a == 'Eq') != neg, fl))
        elif rv.kind == 'un' and rv.a == 'Not':
            out += cond_fields(p, f, rv.ops[0], not neg, depth + 1)
        elif rv.kind == 'use' and rv.ops[0].place is not None:
            out += cond_fields(p, f, rv.ops[0], neg, depth + 1)
        elif rv.kind == 'bin' and rv.a == 'BitAnd' and not neg:
            out += [x for o in rv.ops for x in cond_fields(p, f, o, neg, depth + 1) if x[0]]
    return out

def direct_eq_return(p, g):
    r = []
    for d in defs(g).get(0, []):
        if d[0] == 'arg':
            continue
        rv = d[2]
        if not hasattr(rv, 'func') and rv.kind == 'bin' and rv.a == 'Eq':
            r.append((None, set(src_fields(p, g, rv.ops[0])) | set(src_fields(p, g, rv.ops[1]))))
        elif hasattr(rv, 'func') and facts.last_seg(rv.func) == 'eq':
            r.append((None, set(src_fields(p, g, rv.args[0])) | set(src_fields(p, g, rv.args[1]))))
    return r

def helper_conj(p, g):
    """a boolean helper whose result is true only where all its equality tests held: every constant it returns is false"""
    if g.types.get(0) != 'bool':
        return False
    for d in defs(g).get(0, []):
        if d[0] != 'arg' and not hasattr(d[2], 'func') and d[2].kind == 'use' and d[2].ops[0].kind == 'const' and d[2].ops[0].text == 'true':
            b = d[0]
            if not any(edge_dominates(g, e, b) for e, _ in eq_edges(p, g)):
                return False
    return True

def eq_edges(p, f):
    """[((block, succ), fields compared equal on that edge)]"""
    c = getattr(f, '_eqedges', None)
    if c is not None:
        return c
    f._eqedges = []
    out = []
    for b in f.normal_blocks():
        t = f.blocks[b].term
        if t.kind != 'switch':
            continue
        for sense, fl in cond_fields(p, f, t.op):
            for k, dst in t.targets:
                truth = (k != 0) if k is not None and k != 'otherwise' else True
                if [d for kk, d in t.targets].count(dst) == 1 and truth == sense:
                    out.append(((b, dst), fl))
    f._eqedges = out
    return out

def edge_dominates(f, e, b):
    """every path to b takes edge e"""
    if e is None:
        return False
    c = getattr(f, '_edgedom', None)
    if c is None:
        c = f._edgedom = {}
    if e not in c:
        seen = {0}
        todo = [0]
        while todo:
            x = todo.pop()
            for s in f.succs(x):
                if (x, s) == e or s in seen:
                    continue
                seen.add(s)
                todo.append(s)
        c[e] = seen
    return b not in c[e]

def stored_versions(ctx, entries, version):
    """the version stored in a cache entry is the current version, carried unchanged from a read of the version field"""
    p = ctx.p
    def ok(f, op, depth=0):
        if depth > 5 or op.place is None:
            return False
        fl = src_fields(p, f, op)
        if version in fl:
            return True
        k, d, pr = origin(f, op)
        if k == 'call' and d[1].func:
            g = p.resolve(d[1].func, f.crate)
            return bool(g) and all(any(version in src_fields(p, x, o) for o in ret_ops(x)) for x in g)
        if k != 'arg' or pr:
            return False
        sites = []
        for g in p.fns:
            for b, t in g.calls():
                if t.func and f in p.resolve(t.func, g.crate):
                    sites.append((g, t))
        i = f.args.index(d)
        return bool(sites) and all(ok(g, t.args[i], depth + 1) for g, t in sites)
    for ent, fld in entries:
        idx = facts.field_index(p, ent, fld)
        n = 0
        for f in p.fns:
            if f.trait in ('Clone', 'Default'):
                continue
            for b, i, s in f.stmts():
                if s.kind == 'assign' and s.rv.kind == 'agg' and s.rv.a == 'struct' and s.rv.text and simple(s.rv.text[0]) == ent:
                    names = s.rv.text[1]
                    o = s.rv.ops[list(names).index(fld)]
                    n += 1
                    empty = o.place is None and f.name in ('new', 'default')
                    if empty:
                        ctx.ok('entries store the current version', '%s: empty entry' % f.key)
                    elif ok(f, o):
                        ctx.ok('entries store the current version', f.key)
                    else:
                        ctx.bad('entries store the current version', '%s.%s stored in %s' % (ent, fld, f.key), '%s stores an entry whose version is not the current version' % f.key, f.loc(s.span))
        if not n:
            raise AnalysisError('no construction of %s found' % ent)

def ret_ops(f):
    out = []
    for d in defs(f).get(0, []):
        if d[0] != 'arg' and not hasattr(d[2], 'func'):
            out += [o for o in d[2].ops if o.place is not None]
    return out
