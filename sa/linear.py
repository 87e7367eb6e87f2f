"""Abstract interpretation with linear forms: every integer or stack-pointer value is a linear form over symbolic atoms (or
unknown), a state carries inequalities `form >= 0` collected from the conditions passed, loops are summarised by a counter atom
when every variable changes by a constant per round. Small workspace functions are evaluated at their call sites."""
import re
from program import AnalysisError, strip_ref, drop_generics
from flow import const_value, dominators, dominates

class Lin:
    __slots__ = ('c', 't')
    def __init__(self, c=0, t=()):
        self.c, self.t = c, {k: v for k, v in dict(t).items() if v}
    def __add__(self, o):
        t = dict(self.t)
        for k, v in o.t.items():
            t[k] = t.get(k, 0) + v
        return Lin(self.c + o.c, t)
    def scale(self, n):
        return Lin(self.c * n, {k: v * n for k, v in self.t.items()})
    def __sub__(self, o):
        return self + o.scale(-1)
    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t
    def __hash__(self):
        return hash((self.c, tuple(sorted(self.t.items(), key=repr))))
    def __repr__(self):
        return ' + '.join(['%s*%s' % (v, k) for k, v in sorted(self.t.items(), key=repr)] + [str(self.c)])

def atom(*k):
    return Lin(0, {tuple(k): 1})

UNSIGNED = {'usize', 'u64', 'u32', 'u16', 'u8'}
INT = UNSIGNED | {'isize', 'i64', 'i32', 'i16', 'i8'}
MAYNEG = 'neg'

def positive(l):
    """obviously >= 0: nonnegative constant and atoms known to be nonnegative"""
    return l.c >= 0 and all(v > 0 and k[0] != MAYNEG for k, v in l.t.items())

def entails(facts, goal, depth=3):
    if positive(goal):
        return True
    if depth == 0:
        return False
    neg = {k for k, v in goal.t.items() if v < 0 or k[0] == MAYNEG}
    for f in facts:
        if (neg and any(f.t.get(k, 0) * goal.t[k] > 0 for k in neg)) or (not neg and f.c < 0):
            if entails(facts, goal - f, depth - 1):
                return True
    return False

class State:
    __slots__ = ('env', 'facts')
    def __init__(self, env=None, facts=()):
        self.env, self.facts = dict(env or {}), frozenset(facts)
    def copy(self):
        return State(self.env, self.facts)
    def __eq__(self, o):
        return self.env == o.env and self.facts == o.facts

CMP = {'Lt': lambda a, b: b - a + Lin(-1), 'Le': lambda a, b: b - a, 'Gt': lambda a, b: a - b + Lin(-1), 'Ge': lambda a, b: a - b}
NEG = {'Lt': 'Ge', 'Ge': 'Lt', 'Le': 'Gt', 'Gt': 'Le', 'Eq': 'Ne', 'Ne': 'Eq'}
PTRADD = re.compile(r'<impl \*(?:mut|const) .*>::(add|offset|wrapping_add|wrapping_offset)$')
PTRSUB = re.compile(r'<impl \*(?:mut|const) .*>::(sub|wrapping_sub)$')
PTRDIFF = re.compile(r'<impl \*(?:mut|const) .*>::(offset_from|sub_ptr)$')
NOP = re.compile(r'IntoIterator>::into_iter$|<.* as std::clone::Clone>::clone$|<.* as std::convert::(From|Into)<.*>>::(from|into)$|Pin::<.*>::(as_ref|get_ref|as_mut)$|::cast(_mut|_const)?(::<.*>)?$')

class Interp:
    """client hooks: store(frame, b, cell, value, st, span), call(frame, b, t, args, st) -> None (default) or list of (value, State),
    inline(f, g, t) -> bool, clobber(frame, b, cells, st), atoms(cell) -> value on first read of an unset cell"""
    def __init__(self, p):
        self.p = p
        self.steps = 0
        self.inlined = set()
        self.analysed = set()

    # ---- client defaults
    def store(self, fr, b, cell, v, st, span): pass
    def call(self, fr, b, t, args, st): return None
    def inline(self, f, g, t): return False
    def clobber(self, fr, b, cells, st): pass
    def initial(self, cell, ty): return None

    # ---- cells
    def cell(self, fr, pl, st):
        """memory cell named by place pl"""
        c = ('L', fr, pl.local)
        for pr in pl.proj:
            if pr == '*':
                v = self.read(c, None, st)
                if isinstance(v, tuple) and v[0] == 'ref':
                    c = v[1]
                else:
                    c = ('*', v if v is not None else ('at', c))
            elif pr[0] == 'f':
                c = c + (pr[1],)
            elif pr[0] == 'as':
                c = c + (pr[1],)
            else:
                c = c + ('[]',)
        return c

    def read(self, c, ty, st):
        v = st.env.get(c)
        if v is not None:
            return v
        v = self.initial(c, ty)
        if v is None:
            ep = st.env.get(('epoch', c[0]), 0) if c[0] != 'L' else 0
            if c[0] == 'L':
                # an unset part of a local: named by the local's last whole assignment
                for n in range(len(c) - 1, 2, -1):
                    u = st.env.get(c[:n])
                    if u is not None:
                        ep = ('of', u)
                        break
                else:
                    if not any(k[:len(c)] == c for k in st.env if len(k) > len(c)):
                        ep = 'unset'
            k = ('m', c, ep) if ty is None or ty in UNSIGNED or ty not in INT else (MAYNEG, c, ep)
            return Lin(0, {k: 1})
        return v

    def parts(self, c, st):
        n = len(c)
        return {k[n:]: v for k, v in st.env.items() if k[:n] == c and k[0] != 'epoch'}

    def kill(self, c, st):
        n = len(c)
        for k in [k for k in st.env if k[:n] == c]:
            del st.env[k]

    def assign(self, fr, b, c, val, st, span=None, parts=None):
        self.kill(c, st)
        if parts:
            for k, v in parts.items():
                st.env[c + k] = v
                self.store(fr, b, c + k, v, st, span)
        elif val is not None:
            st.env[c] = val
            self.store(fr, b, c, val, st, span)
        else:
            self.store(fr, b, c, None, st, span)

    def op(self, fr, o, f, st):
        if o.kind == 'const':
            v = const_value(self.p, o, f.crate)
            return Lin(v) if isinstance(v, int) and not isinstance(v, bool) else None
        return self.read(self.cell(fr, o.place, st), self.tyof(f, o.place), st)

    def tyof(self, f, pl):
        ty = f.types.get(pl.local)
        for pr in pl.proj:
            if pr == '*':
                ty = strip_ref(ty) if ty and ty.startswith('&') else None
            elif pr[0] == 'f':
                ty = pr[2]
            else:
                ty = None
        return ty

    # ---- statements
    def fresh(self, fr, b, tag, ty, st):
        k = (MAYNEG if ty in INT and ty not in UNSIGNED else 'v', fr, b, tag)
        self.forget(k, st)
        return Lin(0, {k: 1})

    def forget(self, k, st):
        st.facts = frozenset(f for f in st.facts if k not in f.t)
        for c, v in list(st.env.items()):
            if isinstance(v, Lin) and k in v.t:
                del st.env[c]

    def stmt(self, fr, f, b, i, s, st):
        if s.kind != 'assign':
            return
        c = self.cell(fr, s.place, st)
        rv = s.rv
        ty = self.tyof(f, s.place)
        if rv.kind == 'use':
            o = rv.ops[0]
            if o.kind == 'const':
                v = self.op(fr, o, f, st)
                return self.assign(fr, b, c, v if v is not None else self.fresh(fr, b, i, ty, st), st, s.span)
            src = self.cell(fr, o.place, st)
            pt = self.parts(src, st)
            if pt and set(pt) != {()}:
                return self.assign(fr, b, c, None, st, s.span, parts=pt)
            return self.assign(fr, b, c, self.read(src, ty, st), st, s.span)
        if rv.kind in ('ref', 'addr'):
            return self.assign(fr, b, c, ('ref', self.cell(fr, rv.ops[0].place, st)), st, s.span)
        if rv.kind == 'cast':
            v = self.op(fr, rv.ops[0], f, st)
            return self.assign(fr, b, c, v if v is not None else self.fresh(fr, b, i, ty, st), st, s.span)
        if rv.kind == 'bin':
            x, y = self.op(fr, rv.ops[0], f, st), self.op(fr, rv.ops[1], f, st)
            k = rv.a.replace('Checked', '').replace('Unchecked', '')
            v = None
            if isinstance(x, Lin) and isinstance(y, Lin):
                if k in ('Add', 'Offset'):
                    v = x + y
                elif k == 'Sub':
                    v = x - y
                elif k == 'Mul' and (not x.t or not y.t):
                    v = x.scale(y.c) if not y.t else y.scale(x.c)
                elif k in NEG:
                    v = ('cmp', k, x, y)
            if v is None and k in NEG:
                v = ('cmp', '?', None, None)
            if v is None:
                v = self.fresh(fr, b, i, ty, st)
            if rv.a.startswith('Checked'):
                return self.assign(fr, b, c, None, st, s.span, parts={(0,): v})
            return self.assign(fr, b, c, v, st, s.span)
        if rv.kind == 'un' and rv.a == 'Not':
            v = self.op(fr, rv.ops[0], f, st)
            if isinstance(v, tuple) and v[0] == 'cmp' and v[1] in NEG:
                v = ('cmp', NEG[v[1]], v[2], v[3])
            return self.assign(fr, b, c, v, st, s.span)
        if rv.kind == 'agg':
            pt = {}
            for n, o in enumerate(rv.ops):
                if o.kind == 'const':
                    v = self.op(fr, o, f, st)
                    if v is not None:
                        pt[(n,)] = v
                else:
                    src = self.cell(fr, o.place, st)
                    q = self.parts(src, st) or {(): self.read(src, self.tyof(f, o.place), st)}
                    for k, v in q.items():
                        pt[(n,) + k] = v
            return self.assign(fr, b, c, None, st, s.span, parts=pt)
        if rv.kind == 'discr':
            src = self.cell(fr, rv.ops[0].place if rv.ops else rv.a, st)
            return self.assign(fr, b, c, ('disc', src), st, s.span)
        self.assign(fr, b, c, self.fresh(fr, b, i, ty, st), st, s.span)

    def assume(self, v, truth, st):
        """state after comparison v had the given outcome; None if impossible"""
        if not (isinstance(v, tuple) and v[0] == 'cmp') or v[1] == '?':
            return st
        k = v[1] if truth else NEG[v[1]]
        x, y = v[2], v[3]
        if k in CMP:
            fs = [CMP[k](x, y)]
        elif k == 'Eq':
            fs = [x - y, y - x]
        else:
            return st
        st = st.copy()
        for g in fs:
            if not g.t and g.c < 0:
                return None
            if not positive(g):
                st.facts |= {g}
        return st

    # ---- functions
    def run(self, f, fr, st):
        """abstract execution of f from state st (parameters already bound); list of (return parts, State) joined into one or none"""
        self.analysed.add(f.key)
        IN = {0: st}
        OUT = {}
        order = rpo(f)
        work = [0]
        rets = None
        visits = {}
        while work:
            b = min(work, key=lambda x: order.get(x, 0))
            work.remove(b)
            visits[b] = visits.get(b, 0) + 1
            self.steps += 1
            if self.steps > 200000 or visits[b] > 60:
                raise AnalysisError('linear analysis does not converge in %s' % f.key)
            st = IN[b].copy()
            blk = f.blocks[b]
            for i, s in enumerate(blk.stmts):
                self.stmt(fr, f, b, i, s, st)
            t = blk.term
            outs = []
            if t.kind == 'return':
                rc = ('L', fr, 0)
                rets = st if rets is None else self.join(rets, st, (fr, 'ret'), False)
                continue
            if t.kind == 'switch':
                v = self.op(fr, t.op, f, st)
                for val, tgt in t.targets:
                    s2 = st.copy()
                    if isinstance(v, tuple) and v[0] == 'cmp':
                        truth = (val is None and all(x == 0 for x, _ in t.targets if x is not None)) or (val not in (None, 0))
                        s2 = self.assume(v, truth, s2)
                    elif isinstance(v, tuple) and v[0] == 'disc':
                        nv = st.env.get(v[1])
                        if isinstance(nv, tuple) and nv[0] == 'next' and val == 1:
                            rc, cur, end = nv[1:]
                            s2.facts |= {end - cur + Lin(-1)}
                            self.assign(fr, b, rc + (0,), cur + Lin(1), s2)
                            self.assign(fr, b, v[1], None, s2)
                            s2.env[v[1] + ('variant#1', 0)] = cur
                            s2.env[v[1] + ('Some', 0)] = cur
                    elif isinstance(v, Lin):
                        if val is not None:
                            s2.facts |= {x for x in (v - Lin(val), Lin(val) - v) if x.t}
                            if not v.t and v.c != val:
                                s2 = None
                        elif not v.t and any(v.c == x for x, _ in t.targets if x is not None):
                            s2 = None
                    if s2 is not None:
                        outs.append((tgt, s2))
            elif t.kind == 'call':
                if t.succ:
                    for s2 in self.do_call(fr, f, b, t, st):
                        outs.append((t.succ[0], s2))
            else:
                for s in t.succ:
                    outs.append((s, st))
            for n, (tgt, s2) in enumerate(outs):
                if tgt in f.blocks and f.blocks[tgt].cleanup:
                    continue
                OUT.setdefault(tgt, {})[b, n] = s2
                if tgt not in IN:
                    IN[tgt] = s2
                    work.append(tgt)
                    continue
                back = [e for e in OUT[tgt] if dominates(f, tgt, e[0])]
                if back:
                    if (b, n) in back:
                        j = self.join(IN[tgt], s2, (fr, tgt), True)
                    else:
                        j = self.join(IN[tgt], s2, (fr, tgt), False)
                    if visits.get(tgt, 0) > 5:
                        j.facts &= IN[tgt].facts
                else:
                    j = None
                    for e in sorted(OUT[tgt]):
                        j = OUT[tgt][e] if j is None else self.join(j, OUT[tgt][e], (fr, tgt), False)
                if not j == IN[tgt]:
                    IN[tgt] = j
                    if tgt not in work:
                        work.append(tgt)
        return rets

    def join(self, a, n, tag, back):
        k = ('k',) + tag
        env = {}
        ch = {}
        for c in set(a.env) | set(n.env):
            x, y = a.env.get(c), n.env.get(c)
            if c[0] == 'epoch':
                env[c] = x if x == y else ('j', tag)
                continue
            if x == y:
                env[c] = x
            elif isinstance(x, Lin) and isinstance(y, Lin):
                ch[c] = (x, y)
            elif isinstance(x, Lin) or isinstance(y, Lin):
                env[c] = self.phi(tag, c)
        facts = set()
        # facts that hold on both sides, not depending on the counter
        for g in a.facts | n.facts:
            if back and k in g.t:
                continue
            if entails(a.facts, g) and entails(n.facts, g):
                facts.add(g)
        if back:
            known = any(x.t.get(k, 0) for x, _ in ch.values())
            for c, (x, y) in list(ch.items()):
                d = y - x
                if next(iter(self.phi(tag, c).t)) not in x.t and not d.t and x.t.get(k, 0) == (d.c if known else 0):
                    env[c] = x if known else x + Lin(0, {k: d.c})
                    del ch[c]
        old = {next(iter(self.phi(tag, c).t)) for c, (x, y) in ch.items() if y != self.phi(tag, c)}
        facts = {g for g in facts if not any(k2 in g.t for k2 in old)}
        for c, (x, y) in ch.items():
            ph = env[c] = self.phi(tag, c)
            pk = next(iter(ph.t))
            if not x.t and not y.t:
                facts |= {Lin(max(x.c, y.c)) - ph, ph - Lin(min(x.c, y.c))}
            else:
                # bounds valid on both sides: for each fact or constant, test a few candidates
                for g in list(a.facts) + list(n.facts):
                    for src, cand in ((x, g), (y, g)):
                        for at in [q for q in cand.t if src.t.get(q)]:
                            co = cand.t[at] / src.t[at]
                            if co != int(co) or co == 0:
                                continue
                            co = int(co)
                            rest = cand - src.scale(co)
                            ga, gn = rest + x.scale(co), rest + y.scale(co)
                            if pk not in rest.t and entails(a.facts, ga) and entails(n.facts, gn):
                                facts.add(rest + ph.scale(co))
        return State(env, facts)

    def phi(self, tag, c):
        return Lin(0, {('phi',) + tag + (c,): 1})

    def argval(self, fr, f, a, st):
        return self.op(fr, a, f, st)

    def do_call(self, fr, f, b, t, st):
        p = self.p
        fn = t.func or ''
        name = drop_generics(fn)
        args = [self.op(fr, a, f, st) for a in t.args]
        d = self.cell(fr, t.dest, st) if t.dest is not None else ('L', fr, 'none')
        ty = self.tyof(f, t.dest) if t.dest is not None else None
        r = self.call(fr, f, b, t, args, st)
        if r is not None:
            for s2, v in r:
                self.assign(fr, b, d, v if v is not None else self.fresh(fr, b, 'r', ty, s2), s2, t.span)
            return [s2 for s2, v in r]
        def deref(v):
            return v[1] if isinstance(v, tuple) and v[0] == 'ref' else None
        def num(v):
            if isinstance(v, Lin):
                return v
            c = deref(v)
            if c is None:
                return None
            pt = self.parts(c, st)
            if len(pt) == 1:
                w = next(iter(pt.values()))
                return w if isinstance(w, Lin) else None
            w = self.read(c, None, st)
            return w if isinstance(w, Lin) else None
        def done(v, parts=None):
            self.assign(fr, b, d, v if (v is not None or parts) else self.fresh(fr, b, 'r', ty, st), st, t.span, parts=parts)
            return [st]
        m = re.search(r'as std::cmp::Partial(?:Ord|Eq)(?:<.*>)?>::(lt|le|gt|ge|eq|ne)$', fn)
        if m:
            x, y = num(args[0]), num(args[1])
            k = m.group(1).capitalize()
            return done(('cmp', k, x, y) if x is not None and y is not None else ('cmp', '?', None, None))
        if PTRADD.search(fn) and isinstance(args[0], Lin) and isinstance(args[1], Lin):
            return done(args[0] + args[1])
        if PTRSUB.search(fn) and isinstance(args[0], Lin) and isinstance(args[1], Lin):
            return done(args[0] - args[1])
        if PTRDIFF.search(fn) and isinstance(args[0], Lin) and isinstance(args[1], Lin):
            return done(args[0] - args[1])
        if re.search(r'as std::iter::Iterator>::next$', fn) and 'Range<' in fn and deref(args[0]) is not None:
            rc = deref(args[0])
            if 'RangeInclusive' not in fn:
                cur, end = st.env.get(rc + (0,)), st.env.get(rc + (1,))
                if isinstance(cur, Lin) and isinstance(end, Lin):
                    self.assign(fr, b, d, ('next', rc, cur, end), st)
                    return [st]
        if re.search(r'as std::ops::Deref(Mut)?>::deref(_mut)?$', fn) and deref(args[0]) is not None:
            return done(('ref', deref(args[0]) + ('*',)))
        if re.search(r'<impl \[.*\]>::len$|^(?:alloc|std)::vec::Vec::.*len$|Vec::<.*>::len$', fn):
            c = deref(args[0])
            return done(Lin(0, {('len', c if c is not None else args[0], st.env.get(('epoch', c[0]), 0) if c else 0): 1}) if c is not None or args[0] is not None else None)
        if re.search(r'cmp::(min|Ord>::min)$|::min$', name) and len(args) == 2 and all(isinstance(x, Lin) for x in args):
            v = self.fresh(fr, b, 'r', 'usize', st)
            st.facts |= {args[0] - v, args[1] - v}
            return done(v)
        if NOP.search(fn) and len(t.args) == 1 and not [g for g in p.callees(f, t) if self.inline(f, g, t)]:
            a = t.args[0]
            if a.place is not None:
                c = self.cell(fr, a.place, st)
                v = st.env.get(c)
                if isinstance(v, tuple) and v[0] == 'ref' and 'clone' in fn:
                    c = v[1]
                pt = self.parts(c, st)
                if pt:
                    return done(None, parts=pt)
                return done(self.read(c, None, st))
        gs = p.callees(f, t)
        if len(gs) > 1:     # operator traits: told apart by the operand types
            tys = [self.tyof(f, a.place) if a.place is not None else (a.text or '').rsplit('_', 1)[-1] for a in t.args]
            gs = [g for g in gs if len(g.args) == len(tys) and all(x is None or not g.types.get(y) or x == g.types[y] for x, y in zip(tys, g.args))]
        if len(gs) == 1 and gs[0].key not in fr_keys(fr) and self.inline(f, gs[0], t):
            g = gs[0]
            self.inlined.add(g.key)
            fr2 = (fr, b, g.key)
            s2 = st.copy()
            for n, a in enumerate(t.args):
                c2 = ('L', fr2, g.args[n] if n < len(g.args) else 'x')
                if a.place is not None:
                    src = self.cell(fr, a.place, st)
                    pt = self.parts(src, st)
                    if pt:
                        for k, v in pt.items():
                            s2.env[c2 + k] = v
                        continue
                v = args[n]
                if v is not None:
                    s2.env[c2] = v
            out = self.run(g, fr2, s2)
            if out is None:
                return []
            pt = self.parts(('L', fr2, 0), out)
            for k in [k for k in out.env if k[0] == 'L' and k[1] == fr2]:
                del out.env[k]
            self.assign(fr, b, d, None if pt else self.fresh(fr, b, 'r', ty, out), out, t.span, parts=pt or None)
            return [out]
        # unknown: whatever is handed over mutably may have changed
        cells = []
        for a, v in zip(t.args, args):
            c = deref(v)
            aty = self.tyof(f, a.place) if a.place is not None else ''
            if c is not None and aty and not (aty.startswith('&') and not aty.startswith('&mut')):
                cells.append(c)
        for c in cells:
            self.kill(c, st)
            st.env[('epoch', c[0])] = (fr, b)
        self.clobber(fr, f, b, t, cells, st)
        return done(None)

def fr_keys(fr):
    out = []
    while isinstance(fr, tuple):
        out.append(fr[2])
        fr = fr[0]
    out.append(fr)
    return out

def rpo(f):
    r = getattr(f, '_rpo', None)
    if r is None:
        seen, out = {0}, []
        st = [(0, iter(f.succs(0)))]
        while st:
            b, it = st[-1]
            for x in it:
                if x not in seen:
                    seen.add(x)
                    st.append((x, iter(f.succs(x))))
                    break
            else:
                out.append(b)
                st.pop()
        r = {b: n for n, b in enumerate(reversed(out))}
        f._rpo = r
    return r
