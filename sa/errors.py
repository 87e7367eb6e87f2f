"""Where the error of a failed call goes. For one call (or one owned parameter) the analysis follows the value that may hold the error along
every path: moves, matches, `?`, conversions, library adaptors and functions that take it over, until it is returned, stored, or lost."""
import re, collections
from program import AnalysisError, drop_generics, simple, strip_ref
from flow import live_in

BRANCH = re.compile(r'as (?:std|core)::ops::Try>::branch$')
RESID = re.compile(r'as (?:std|core)::ops::FromResidual')
CONV = re.compile(r'as (?:std|core)::convert::(?:From|Into)<')
KEEP = re.compile(r'(?:result::Result|option::Option)::(?:<.*>::)?(map|as_ref|as_mut|cloned|copied|inspect|and_then|transpose|flatten)(::<.*>)?$|as std::clone::Clone>::clone$|as std::iter::Iterator>::|iter::IntoIterator>::into_iter$|boxed::Box::<.*>::new$|iter::FromIterator')
ERRFN = re.compile(r'result::Result::(?:<.*>::)?(map_err|or_else|unwrap_or_else|map_or_else)(::<.*>)?$')
ABORT = re.compile(r'result::Result::(?:<.*>::)?(unwrap|expect|unwrap_unchecked|into_ok)$')
TAKERR = re.compile(r'result::Result::(?:<.*>::)?(unwrap_err|expect_err|into_err|err)$')
LOSE = re.compile(r'result::Result::(?:<.*>::)?(ok|unwrap_or|unwrap_or_default|map_or|or|is_ok_and|is_err_and|iter|into_iter)(::<.*>)?$|as std::iter::IntoIterator>::into_iter$|mem::(drop|forget)(::<.*>)?$')
ISX = re.compile(r'result::Result::(?:<.*>::)?(is_ok|is_err)$')
RAW = re.compile(r'boxed::Box::<.*>::(into_raw|leak)$')

def err_path(ty):
    """variant steps from a value of this type to the error it may hold; None: it cannot hold one"""
    ty = ty.strip()
    if 'RubyError' not in ty:
        return None
    if re.match(r'(&|\*|impl |dyn |fn\(|for<|unsafe |extern |\{)', ty) or re.match(r'(std::rc::)?Rc<|.*Box<dyn ', ty):
        return None
    h = drop_generics(ty)
    n = h.rsplit('::', 1)[-1]
    if n == 'RubyError' and '<' not in ty:
        return ()
    from mir import split_top
    i = ty.find('<')
    if i >= 0 and ty.endswith('>'):
        a = split_top(ty[i + 1:-1])
        if n == 'Result' and len(a) == 2:
            r = err_path(a[1])
            if r is not None:
                return ('Err',) + r
        if n == 'Option':
            r = err_path(a[0])
            return None if r is None else ('Some',) + r
        if n == 'ControlFlow':
            r = err_path(a[0])
            if r is not None:
                return ('Break',) + r
            r = err_path(a[1]) if len(a) > 1 else None
            return None if r is None else ('Continue',) + r
        if n == 'Box':
            r = err_path(a[0])
            return None if r is None else ('box',) + r
    return ('?',) if re.match(r'\(|\[|(?:[\w:]*::)?(Vec|Option|Result|Box|ControlFlow|VecDeque)\b', ty) and ' Fn' not in ty else None

VAR = {'Ok': 0, 'Err': 1, 'None': 0, 'Some': 1, 'Continue': 0, 'Break': 1}

class Lost:
    def __init__(self, f, why, span, facts, at):
        self.f, self.why, self.span, self.facts, self.at = f, why, span, facts, at

class Flow:
    LIMIT = 20000
    def __init__(self, prog, kinds, sub=(), fields=frozenset()):
        self.p = prog
        self.kinds = kinds          # variant names of the error kind enum
        self.sub = list(sub)        # variant names of the native error classes
        self.probe = None
        self.fields = fields        # fields that keep the outcome of a fiber
        self.preds = {}
        self.memo = {}
        self.busy = set()
        self.steps = 0
        self.uses = 0

    # ---------------------------------------------------------------- summaries
    def param(self, g, i):
        """what g does with the error held by its i-th argument: (set of outcomes in ret/stored, [Lost])"""
        k = (g.key, i)
        if k in self.memo:
            return self.memo[k]
        if k in self.busy:
            return set(), []
        self.busy.add(k)
        a = g.args[i]
        a = a[0] if isinstance(a, tuple) else a
        pth = err_path(g.types.get(a, ''))
        out = (set(), [])
        if pth is not None:
            out = self.follow(g, 0, a, pth, pth == ())
        self.busy.discard(k)
        self.memo[k] = out
        return out

    # ---------------------------------------------------------------- one error
    def follow(self, f, b0, local, path, sure, init=()):
        """explore from the start of block b0 with the error in local at path. Returns (outcomes, losses)"""
        live = getattr(f, '_livein', None)
        if live is None:
            live = live_in(f)
            f._livein = live
        outs, losses = set(), []
        st0 = (b0, (local, ()), path, sure, frozenset(), tuple(init))
        seen = {st0}
        work = [st0]
        while work:
            st = work.pop()
            self.steps += 1
            if len(seen) > self.LIMIT:
                raise AnalysisError('error flow does not converge in %s' % f.key)
            for r in self.block(f, st):
                if isinstance(r, Lost):
                    losses.append(r)
                elif r[0] == 'out':
                    outs.add(r[1])
                else:
                    b, h, pth, su, facts, env = r
                    if f.blocks[b].cleanup:
                        continue
                    lv = live.get(b, ())
                    env = tuple(sorted(((k, v) for k, v in env.items() if k in lv), key=repr))
                    s2 = (b, h, pth, su, facts, env)
                    if s2 not in seen:
                        seen.add(s2)
                        work.append(s2)
        return outs, losses

    def stored(self, f, d):
        import facts
        for s, n in facts.fields(self.p, f, d) or []:
            if (s, n) in self.fields:
                return 'stored'
        if '{closure#' in f.key:
            from flow import defs
            for _ in range(4):
                ds = defs(f).get(d.local, [])
                if d.local == 1 or len(ds) != 1 or getattr(ds[0][2], 'kind', '') not in ('use', 'ref') or ds[0][2].ops[0].place is None:
                    break
                pl = ds[0][2].ops[0].place
                d = type(d)(pl.local, tuple(pl.proj) + tuple(d.proj))
        if '{closure#' in f.key and d.local == 1:
            k = [x[1] for x in d.proj if isinstance(x, tuple) and x[0] == 'f']
            if k and self.captured(f, k[0]):
                return 'captured'
        return 'elsewhere'

    def captured(self, g, k):
        """an error closure g leaves in its k-th captured variable is accounted for by the function around it"""
        from flow import defs
        key = (g.key, 'cap', k)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = False
        parent = self.p.by_key.get(re.sub(r'::\{closure#\d+\}$', '', g.key))
        ok = False
        if parent is not None:
            for b, i, s in parent.stmts():
                if s.kind != 'assign' or s.rv.kind != 'agg' or s.rv.a != 'closure' or g not in self.p.closure(s.rv.text) or k >= len(s.rv.ops):
                    continue
                o = s.rv.ops[k]
                ds = defs(parent).get(o.place.local, []) if o.place is not None else []
                if len(ds) != 1 or getattr(ds[0][2], 'kind', '') != 'ref' or ds[0][2].ops[0].place.proj:
                    return False
                l = ds[0][2].ops[0].place.local
                pth = err_path(parent.types.get(l, ''))
                if pth is None:
                    return False
                n = 0
                for c, t in parent.calls():
                    if not t.succ or not any(g in self.p.callees(parent, t) for _ in (0,)):
                        continue
                    n += 1
                    outs, losses = self.follow(parent, t.succ[0], l, pth, pth == ())
                    if losses or outs != {'ret'}:
                        return False
                ok = n > 0
        self.memo[key] = ok
        return ok

    def watch(self, f, rv):
        pl = rv.ops[0].place
        return pl is not None and 'ExceptionEntry' in f.types.get(pl.local, '') and 'Option' in f.types.get(pl.local, '')

    def const_str(self, f, a):
        from flow import defs
        seen = set()
        while a is not None:
            if a.kind == 'const':
                t = a.text or ''
                m = re.match(r'"(.*)"$', t)
                if m:
                    return t
                g = self.p.by_key.get(a.path or re.sub(r'^const ', '', t))
                if g is not None:
                    for b, i, st in g.stmts():
                        for o in (st.rv.ops if st.kind == 'assign' else ()):
                            if o.kind == 'const' and re.match(r'"(.*)"$', o.text or ''):
                                return o.text
                return None
            l = a.place.local
            if l in seen:
                return None
            seen.add(l)
            ds = [x for x in defs(f).get(l, []) if x[0] != 'arg']
            if len(ds) != 1 or not getattr(ds[0][2], 'ops', None):
                return None
            a = ds[0][2].ops[0]
        return None

    def rel(self, pl, h):
        """relation of place pl to holder h=(local, proj): 'same' / ('in', rest) part of it / ('out', rest) contains it / None"""
        if pl.local != h[0]:
            return None
        a, b = tuple(pl.proj), h[1]
        n = min(len(a), len(b))
        if a[:n] != b[:n]:
            return None
        if len(a) == len(b):
            return ('same', ())
        return ('in', a[n:]) if len(a) > len(b) else ('out', b[n:])

    def step_into(self, path, proj):
        """error path after projecting: None if the projection leaves the error's branch; ('kind', rest) inside the error"""
        pr = [x for x in proj]
        p = list(path)
        while pr:
            x = pr[0]
            if not p:
                return ('inside', tuple(pr))
            if p[0] == '?':
                return ('path', ('?',))
            if x == '*' and p[0] == 'box':
                p.pop(0)
                pr.pop(0)
                continue
            if isinstance(x, tuple) and x[0] == 'as':
                if x[1] != p[0]:
                    return None
                p.pop(0)
                pr.pop(0)
                if pr and pr[0][0] == 'f':
                    pr.pop(0)
                continue
            if isinstance(x, tuple) and x[0] == 'f' and p[0] == 'box':
                return ('path', tuple(p))
            return ('inside', tuple(pr))
        return ('path', tuple(p))

    def block(self, f, st):
        b, h, path, sure, facts, env = st
        env = dict(env)
        blk = f.blocks[b]
        for s in blk.stmts:
            if s.kind == 'dead' and s.place is not None:
                env.pop(s.place.local, None)
                continue
            if s.kind != 'assign':
                continue
            rv, d = s.rv, s.place
            if d.proj:
                r = self.rel(d, h)
                q = self.step_into(path, r[1]) if r is not None and r[0] == 'in' else None
                if q is not None and q[0] == 'inside' and len(q[1]) == 1 and q[1][0][0] == 'f' and q[1][0][1] == 0:
                    yield Lost(f, 'replaced by another error', s.span, facts, 'replace')
            if not d.proj:
                env.pop(d.local, None)
            val = None
            moved = None
            for i, o in enumerate(rv.ops):
                if o.place is None:
                    continue
                r = self.rel(o.place, h)
                if r is None:
                    continue
                if rv.kind in ('ref', 'addr', 'fake'):
                    q = self.step_into(path, r[1]) if r[0] != 'out' else None
                    if q is not None and not d.proj:
                        val = ('ref',) + q
                    continue
                if rv.kind == 'discr' and not self.watch(f, rv):
                    q = self.step_into(path, r[1]) if r[0] != 'out' else None
                    if q is not None:
                        val = ('discr',) + q
                    continue
                if o.kind == 'move' or (o.kind == 'copy' and rv.kind == 'use'):
                    if r[0] == 'out':
                        moved = (i, r[1], path)
                    else:
                        q = self.step_into(path, r[1])
                        if q is not None and q[0] == 'path' and (o.kind == 'move'):
                            moved = (i, (), q[1])
                        elif q is not None and q[0] == 'inside' and o.kind == 'move':
                            val = ('part',) + q
            if rv.kind == 'discr' and sure and self.watch(f, rv):
                val = ('entry',)
            # via references
            if val is None and moved is None and rv.ops and rv.ops[0].place is not None:
                o = rv.ops[0]
                v = env.get(o.place.local)
                if isinstance(v, tuple) and v[0] in ('ref', 'part'):
                    pr = tuple(o.place.proj)
                    if v[0] == 'ref' and rv.kind in ('discr', 'ref', 'use') and pr and pr[0] == '*':
                        q = self.step_into(v[2], pr[1:]) if v[1] == 'path' else ('inside', v[2] + pr[1:])
                        if q is not None:
                            val = ('discr' if rv.kind == 'discr' else 'ref' if rv.kind == 'ref' else 'part',) + q
                    elif rv.kind == 'use':
                        val = v if not pr else None
                    elif rv.kind == 'discr' and v[0] == 'part':
                        val = ('discr', v[1], v[2] + pr)
                elif rv.kind == 'use' and not o.place.proj and v is not None:
                    val = v
                elif rv.kind == 'un' and rv.a == 'Not' and isinstance(v, tuple) and v[0] in ('is', 'pred'):
                    val = v[:-1] + (1 - v[-1],)
                elif rv.kind == 'un' and rv.a == 'Not' and isinstance(v, int):
                    val = 1 - v
            if rv.kind == 'use' and rv.ops[0].kind == 'const' and rv.ops[0].text in ('true', 'false'):
                val = int(rv.ops[0].text == 'true')
            if moved is not None:
                i, pre, pth = moved
                if rv.kind == 'agg':
                    m = re.search(r'::(Ok|Err|Some|None|Continue|Break)$', drop_generics(rv.text or '')) if rv.a == 'variant' else None
                    if m:
                        if pre:
                            yield ('out', 'elsewhere')
                            return
                        pth = (m.group(1),) + pth
                    else:
                        pth = ('?',)
                    pre = ()
                self.uses += 1
                if '*' in d.proj:
                    yield ('out', self.stored(f, d))
                    return
                h = (d.local, tuple(d.proj) + tuple(pre))
                path = pth
                env = {k: v for k, v in env.items() if isinstance(v, int) or v[0] in ('is', 'pred')}
                continue
            if val is not None and not d.proj:
                env[d.local] = val
        t = blk.term
        if t.kind == 'return':
            if self.probe is not None and h[0] < 0:
                self.probe.append((facts, env.get(0)))
            if h[0] == 0:
                yield ('out', 'ret')
            return
        if t.kind in ('resume', 'unreachable'):
            return
        if t.kind == 'drop':
            r = self.rel(t.op.place, h)
            if r is not None and r[0] in ('same', 'out'):
                yield Lost(f, 'dropped', t.span, facts, 'drop')
                if not sure:
                    pass
                return
            for s in t.succ:
                yield (s, h, path, sure, facts, env)
            return
        if t.kind == 'switch':
            o = t.op
            v = env.get(o.place.local) if o.place is not None and not o.place.proj else None
            vals = [k for k, _ in t.targets if k is not None]
            if isinstance(v, int):
                dst = dict(t.targets)
                yield (dst[v] if v in dst else dst[None], h, path, sure, facts, env)
                return
            if isinstance(v, tuple) and v[0] == 'is':
                # ('is', which-value-means-error)
                for k, dst in t.targets:
                    ks = [k] if k is not None else [x for x in (0, 1) if x not in vals]
                    for kk in ks:
                        if kk == v[1]:
                            yield (dst, h, path, True, facts, env)
                return
            if isinstance(v, tuple) and v[0] == 'pred':
                for k, dst in t.targets:
                    ks = [k] if k is not None else [x for x in (0, 1) if x not in vals]
                    for kk in ks:
                        for fs in self.predfacts(v[1], kk == v[2], facts):
                            yield (dst, h, path, sure, fs, env)
                return
            if isinstance(v, tuple) and v[0] == 'entry':
                for k, dst in t.targets:
                    for kk in ([k] if k is not None else [x for x in (0, 1) if x not in vals]):
                        yield (dst, h, path, sure, self.add(facts, ('entry', kk == 1)), env)
                return
            if isinstance(v, tuple) and v[0] == 'discr':
                if v[1] == 'path':
                    pth = v[2]
                    if pth and pth[0] in VAR:
                        want = VAR[pth[0]]
                        dst = dict(t.targets)
                        nb = dst[want] if want in dst else dst.get(None)
                        if nb is not None:
                            last = all(x == 'box' for x in pth[1:])
                            yield (nb, h, path, sure or last, facts, env)
                        return
                elif v[1] == 'inside':
                    # test of the error's kind
                    lab = v[2]
                    isk = len([x for x in lab if x[0] == 'f']) == 1 and lab[0] == ('f', 0)[:len(lab[0])] or (len(lab) == 1 and lab[0][0] == 'f' and lab[0][1] == 0)
                    for k, dst in t.targets:
                        names = self.kinds if isk else self.sub if [x[1] for x in lab if isinstance(x, tuple)][:2] == [0, 'RuntimeErr'] else None
                        if names is not None:
                            name = [names[k]] if k is not None else [n for i, n in enumerate(names) if i not in vals]
                            fs = self.addkind(facts, frozenset(name), 'kind' if isk else 'class')
                        else:
                            fs = self.add(facts, ('sub%s' % ''.join(str(x[1]) for x in lab if isinstance(x, tuple)), k))
                        if fs is not None:
                            yield (dst, h, path, sure, fs, env)
                    return
            for s in t.succ:
                yield (s, h, path, sure, facts, env)
            return
        if t.kind == 'call':
            yield from self.call(f, b, t, h, path, sure, facts, env)
            return
        for s in t.succ:
            yield (s, h, path, sure, facts, env)

    def add(self, facts, x):
        return frozenset({y for y in facts if y[0] != x[0]} | {x})

    def predfacts(self, key, val, facts):
        """facts after a predicate returned val: what its body says about the error's kind, or its name"""
        g = self.p.by_key.get(key)
        if g is None or 'RubyError' not in ' '.join(g.types.get(a[0] if isinstance(a, tuple) else a, '') for a in g.args):
            return [self.add(facts, (key, val))]
        if key not in self.preds:
            old, self.probe = self.probe, []
            a = g.args[0]
            a = a[0] if isinstance(a, tuple) else a
            self.follow(g, 0, -1, (), True, ((a, ('ref', 'inside', ())),))
            self.preds[key], self.probe = self.probe, old
        r = []
        for fs, v in self.preds[key]:
            if not isinstance(v, int) or bool(v) == val:
                m = self.merge2(facts, fs)
                if m is not None and m not in r:
                    r.append(m)
        return r if self.preds[key] else [self.add(facts, (key, val))]

    def addkind(self, facts, names, tag='kind'):
        old = [x for x in facts if x[0] == tag]
        if old:
            n = names & old[0][1]
            if not n:
                return None
            return frozenset((facts - {old[0]}) | {(tag, n)})
        return frozenset(facts | {(tag, names)})

    def call(self, f, b, t, h, path, sure, facts, env):
        fn = t.func or ''
        if not [x for x in t.succ if not f.blocks[x].cleanup]:
            if sure and not ABORT.search(fn):
                yield Lost(f, 'aborts the interpreter', t.span, facts, 'panic')
                return
        held = None
        for i, a in enumerate(t.args):
            if a.place is None:
                continue
            r = self.rel(a.place, h)
            if r is not None and a.kind == 'move':
                q = ('path', path) if r[0] in ('same',) else ('path', ('?',)) if r[0] == 'out' else self.step_into(path, r[1])
                if q is not None and q[0] == 'path':
                    held = (i, q[1])
        d = t.dest
        e2 = dict(env)
        if d is not None and not d.proj:
            e2.pop(d.local, None)
        if held is None:
            # the call may look at the error through a reference
            a0 = t.args[0] if t.args else None
            v = env.get(a0.place.local) if a0 is not None and a0.place is not None and not a0.place.proj else None
            if isinstance(v, tuple) and v[0] == 'ref' and not d.proj:
                m = ISX.search(fn)
                if m and v[1] == 'path':
                    pth = v[2]
                    if pth and pth[0] == 'Err' and all(x == 'box' for x in pth[1:]):
                        e2[d.local] = ('is', int(m.group(1) == 'is_err'))
            if not d.proj and d.local not in e2 and f.types.get(d.local) == 'bool' and sure:
                gs = self.p.resolve(fn, f.crate) if fn else []
                if len(gs) == 1:
                    e2[d.local] = ('pred', gs[0].key, 1)
                elif re.search(r'PartialEq.*>::(eq|ne)$', fn):
                    c = [self.const_str(f, a) for a in t.args]
                    c = [x for x in c if x]
                    if c:
                        e2[d.local] = ('pred', 'equals ' + c[0], int(fn.endswith('eq')))
            if d is not None and self.rel(d, h) is not None and self.rel(d, h)[0] in ('same', 'out'):
                return     # overwritten: a drop would have been seen if it still held the error
            for s in t.succ:
                yield (s, h, path, sure, facts, e2)
            return
        self.uses += 1
        i, pth = held
        def go(newpath, sure2=None, facts2=None):
            for s in t.succ:
                if '*' in d.proj:
                    yield ('out', self.stored(f, d))
                else:
                    yield (s, (d.local, tuple(d.proj)), newpath, sure if sure2 is None else sure2, facts if facts2 is None else facts2,
                           {k: v for k, v in e2.items() if isinstance(v, int)})
        if BRANCH.search(fn):
            if pth and pth[0] == 'Err':
                yield from go(('Break', 'Err') + pth[1:])
            elif pth and pth[0] == 'Some':
                yield from go(('Continue',) + pth[1:])
            else:
                yield from go(('?',))
            return
        dp = err_path(f.types.get(d.local, '')) if not d.proj else ('?',)
        if RESID.search(fn):
            yield from go(dp if dp is not None else ('?',), True)
            return
        if ABORT.search(fn):
            if pth and pth[0] == 'Err':
                yield Lost(f, 'aborts the interpreter (%s)' % ABORT.search(fn).group(1), t.span, facts, 'unwrap')
            else:
                yield from go(pth[1:] if pth else pth)
            return
        if TAKERR.search(fn) and dp is not None:
            yield from go(dp)
            return
        m = ERRFN.search(fn)
        if m and pth and pth[0] == 'Err':
            clos = [g for g in self.p.callees(f, t)]
            hit = False
            ok = False
            for g in clos:
                for j in range(len(g.args)):
                    a = g.args[j]
                    a = a[0] if isinstance(a, tuple) else a
                    if 'RubyError' in g.types.get(a, '') and not g.types.get(a, '').startswith('&'):
                        hit = True
                        outs, losses = self.param(g, j)
                        for l in losses:
                            yield Lost(l.f, l.why, l.span, self.merge(facts, l.facts), l.at)
                        ok = ok or 'ret' in outs
            if not hit:
                yield Lost(f, 'discarded by %s' % m.group(1), t.span, facts, 'call')
            elif dp is not None and ok:
                yield from go(dp)
            return
        if LOSE.search(fn):
            yield Lost(f, 'discarded by %s' % drop_generics(fn).rsplit('::', 1)[-1], t.span, facts, 'call')
            return
        if RAW.search(fn):
            yield ('out', 'elsewhere')
            return
        gs = self.p.resolve(fn, f.crate) if fn else []
        if gs:
            for g in gs:
                if i >= len(g.args):
                    yield ('out', 'elsewhere')
                    continue
                outs, losses = self.param(g, i)
                for l in losses:
                    yield Lost(l.f, l.why, l.span, self.merge(facts, l.facts), l.at)
                if 'ret' in outs:
                    yield from go(dp if dp is not None else ('?',))
                for x in outs & {'stored', 'captured'}:
                    yield ('out', x)
                if 'elsewhere' in outs:
                    yield ('out', 'elsewhere')
            return
        if CONV.search(fn) or KEEP.search(fn):
            if dp is None:
                yield Lost(f, 'discarded by %s' % drop_generics(fn).rsplit('::', 1)[-1], t.span, facts, 'call')
            else:
                yield from go(dp)
            return
        if dp is not None:
            yield from go(dp)
        elif any(('&mut' in f.types.get(a.place.local, '') or '*mut' in f.types.get(a.place.local, '')) for j, a in enumerate(t.args) if j != i and a.place is not None):
            yield ('out', 'elsewhere')     # pushed into a container or a caller-owned place
        else:
            yield Lost(f, 'discarded by %s' % drop_generics(fn).rsplit('::', 1)[-1], t.span, facts, 'call')

    def merge2(self, a, b):
        r = a
        for x in b:
            r = self.addkind(r, x[1], x[0]) if x[0] in ('kind', 'class') else self.add(r, x)
            if r is None:
                return None
        return r

    def merge(self, a, b):
        return self.merge2(a, b) or a
