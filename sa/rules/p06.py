"""Linear use of branch placeholders, and balance of compile-time scope records. Typestate analysis over the MIR of the code
generator, interprocedural and path-sensitive in Result/Option/bool outcomes. Every instruction emitted with a displacement to be
filled in yields a token; the analysis tracks which locals, options, vectors and scope records hold it, through copies, wrappers,
iterators and calls. Obligations: on every path on which compilation succeeds (Ok, or plain return) each token has been given its
destination, returned, or handed to a vector or scope record that is itself drained by a loop which fills in every element;
scope records pushed are popped; no record that collects branches is dropped without being drained; code for a new instruction
sequence is never generated while a record of the enclosing sequence would collect its branches."""
import re
from program import AnalysisError, simple
from flow import origin, single_def
from typestate import Engine, Client, VARIDX

NEXT = re.compile(r'as (?:std|core)::iter::(Iterator|DoubleEndedIterator)>::(next|next_back)$|vec::Vec::<.*>::pop$')
EMPTY = re.compile(r'::is_empty$')
DROPS = re.compile(r'::(skip|take|step_by|filter|skip_while|take_while|filter_map|map_while|nth|truncate|clear|remove|swap_remove|retain|split_off|first|last|split_first|split_last|get)(::<.*>)?$')
CONSUME = re.compile(r'::(for_each|try_for_each|map|and_then|inspect|map_or|map_or_else|fold|if_let|is_some_and)(::<.*>)?$')

def is_elem(ty):
    return re.search(r'\bISeqPos\b', ty or '') is not None

class Tok(Client):
    def __init__(self, ctx, fields):
        self.ctx, self.p = ctx, ctx.p
        p = ctx.p
        self.fields = set(fields)           # (struct, field index) known to collect branches
        self.found = set()
        def struct(n):
            its = [i for i in p.items.get(n, []) if i.kind == 'struct']
            if len(its) != 1:
                raise AnalysisError('struct %s not found' % n)
            return its[0]
        self.struct = struct
        cg = struct('Codegen')
        self.stacks = {}                    # element type -> (index, name)
        for k, (n, t) in enumerate(cg.fields):
            m = re.match(r'Vec\s*<\s*(\w+)\s*>$', t.strip())
            if m:
                self.stacks[m.group(1)] = (len(self.stacks), n)
        self.records = {s for s, i in self.fields}
        for e in list(self.stacks):
            its = [i for i in p.items.get(e, []) if i.kind == 'struct']
            for it in its:
                for n, t in it.fields:
                    m = re.match(r'Vec\s*<\s*(\w+)\s*>$', t.strip())
                    if m and m.group(1) in self.records and m.group(1) not in self.stacks:
                        self.stacks[m.group(1)] = (len(self.stacks), n)
        self.names = {k: n for k, n in self.stacks.values()}
        self.label_el = None
        for e in self.stacks:
            for it in p.items.get(e, []):
                if it.kind == 'struct' and e in self.records:
                    for j, (n, t) in enumerate(it.fields):
                        en = [x for x in p.items.get(t.strip(), []) if x.kind == 'enum']
                        if en:
                            self.label_el, self.label_field, self.label_enum = e, j, en[0]
        self.closures = {}
        self._org = {}
        self.bads = {}
        self.transfers = set()              # (record struct, label)
        self.newseq = []                    # (f, b, label, context depth)
        self.initial = None
        self.gens = set()
        self.writes = set()
        self.drains = set()
        self.pushes, self.pops = set(), set()
        self.exits = {}
        self.tokens_at = set()
        fs = [g for g in p.fns if g.crate == 'ruruby' and g.kind == 'fn']
        self.base_w = [g for g in fs if g.self_type == 'ISeq' and g.name == 'write_disp']
        self.base_g = []
        for g in fs:
            if g.self_type == 'ISeq' and g.trait is None and (g.ret or '').endswith('ISeqPos') and g.args and g.types[g.args[0]].startswith('&mut'):
                self.base_g.append(g.key)
        if len(self.base_w) != 1 or len(self.base_g) < 3:
            raise AnalysisError('branch emitters / write_disp not recognised')
        self.base_w = self.base_w[0].key
        self.rel = set()
        holders = {n for n, its in p.items.items() for i in its if i.kind == 'struct' and any(is_elem(t) and not t.strip().startswith('Vec') for _, t in i.fields)}
        for g in fs:
            if g.is_closure or g.key == self.base_w or g.key in self.base_g:
                continue
            tys = [g.types[a] for a in g.args]
            if any(simple(t) == 'Codegen' and t.startswith('&mut') for t in tys):
                self.rel.add(g.key)
            elif any(re.search(r'&mut .*\bISeq$', t) for t in tys) and any(is_elem(t) for t in tys + [g.ret or '']):
                self.rel.add(g.key)
            elif any(simple(t) in self.records for t in tys) and any(is_elem(x) or simple(x) in holders for x in tys) and g.trait is None:
                self.rel.add(g.key)
        self.calls = {k: {h.key for b, t in p.by_key[k].calls() for h in p.callees(p.by_key[k], t)} for k in self.rel}
        self.recursive = set()
        for k in self.rel:
            seen, st = set(), list(self.calls[k])
            while st:
                x = st.pop()
                if x in seen or x not in self.calls:
                    continue
                seen.add(x)
                st += self.calls[x]
            if k in seen:
                self.recursive.add(k)

    params = True

    def entry_env(self, f, ts):
        return tuple(ts[3])

    def relevant(self, g):
        return g.key in self.rel

    # ------------------------------------------------------------ helpers
    def zero(self):
        return tuple(0 for _ in self.stacks)

    def org(self, f, op):
        k = (f.key, str(op))
        if k not in self._org:
            self._org[k] = self._root(f, op.place) if op.place is not None else ('const', None, ())
        return self._org[k]

    def _root(self, f, pl):
        """the variable a reference points into: ('arg'|'local', l, path), or ('ref', l, path) for a reference obtained from a call"""
        proj = []
        for _ in range(40):
            proj = list(pl.proj) + proj
            l = pl.local
            ty = f.types.get(l, '')
            if not ty.startswith('&') and not ty.startswith('*'):
                return ('arg' if l in f.args else 'local', l, tuple(proj))
            d = single_def(f, l)
            if d is None:
                return ('ref', l, tuple(proj))
            if d[0] == 'arg':
                return ('arg', l, tuple(proj))
            rv = d[2]
            if hasattr(rv, 'func') or rv.kind not in ('use', 'ref', 'cast', 'addr') or rv.ops[0].place is None:
                return ('ref', l, tuple(proj))
            if rv.kind in ('ref', 'addr') and proj and proj[0] == '*':
                proj = proj[1:]
            pl = rv.ops[0].place
        return ('ref', pl.local, tuple(proj))

    @staticmethod
    def path(proj):
        return tuple(x[:2] for x in proj if x != '*' and x[0] == 'f')

    @staticmethod
    def vpath(proj):
        """field path without the payload field of an enum variant"""
        r, down = [], False
        for x in proj:
            if x == '*':
                continue
            if x[0] == 'as':
                down = True
            elif x[0] == 'f':
                if not down:
                    r.append(x[:2])
                down = False
        return tuple(r)

    def held(self, toks, pl):
        """[(token, rest of path)] of tokens reachable from place pl"""
        P = self.vpath(pl.proj)
        r = []
        for t in toks:
            if t[0] == 'lost':
                continue
            for l, H in t[1]:
                if l == pl.local and H[:len(P)] == P[:len(H)]:
                    r.append((t, H[len(P):]))
                    break
        return r

    def drop_local(self, toks, l, P=()):
        out = set()
        for t in toks:
            if t[0] == 'lost':
                out.add(t)
                continue
            hs = frozenset(h for h in t[1] if not (h[0] == l and h[1][:len(P)] == P))
            if hs == t[1]:
                out.add(t)
            elif hs:
                out.add((t[0], hs, t[2]))
            else:
                out.add(('lost', t[0]))
        return frozenset(out)

    def join(self, toks, pairs, l, pre=()):
        """the tokens in pairs are now also held by l"""
        m = {}
        for t, rest in pairs:
            m.setdefault(t, set()).add((l, pre + rest))
        return frozenset((t[0], t[1] | frozenset(m[t]), t[2]) if t in m else t for t in toks)

    def discharge(self, toks, pl):
        h = {t for t, _ in self.held(toks, pl)}
        return frozenset(t for t in toks if t not in h)

    def add(self, toks, site, holder, multi=False):
        self.tokens_at.add(site)
        return toks | {(site, frozenset([holder]), multi)}

    # ------------------------------------------------------------ transfer functions
    def stmt(self, f, b, i, s, ts, env):
        toks, loops, dep = ts
        if s.kind == 'dead' and getattr(s, 'place', None) is not None:
            if not toks:
                return ts
            return (self.drop_local(toks, s.place.local), loops, dep)
        if s.kind != 'assign' or not toks:
            return ts
        pairs, pre_of = [], []
        if s.rv.kind in ('use', 'ref', 'cast', 'fake', 'addr'):
            o = s.rv.ops[0]
            if o.place is not None:
                pairs = [(x, ()) for x in self.held(toks, o.place)]
        elif s.rv.kind == 'agg':
            for j, o in enumerate(s.rv.ops):
                if o.place is not None:
                    pre = () if s.rv.a == 'variant' else (('f', j),)
                    pairs += [(x, pre) for x in self.held(toks, o.place)]
        if not s.place.proj or s.place.proj[0] != '*':
            toks = self.drop_local(toks, s.place.local, self.vpath(s.place.proj)) if s.place.local not in [h[0] for (t, r), pre in pairs for h in t[1]] else toks
        if pairs:
            base = self.vpath(s.place.proj)
            m = {}
            for (t, rest), pre in pairs:
                m.setdefault((t[0], t[2], t[1] - {h for h in t[1] if h[0] == s.place.local}), set()).add((s.place.local, base + pre + rest))
            out = set()
            for t in toks:
                k = t[0] != 'lost' and (t[0], t[2], t[1] - {h for h in t[1] if h[0] == s.place.local})
                out.add((t[0], t[1] | frozenset(m[k]), t[2]) if k in m else t)
            toks = frozenset(out)
        return (toks, loops, dep)

    def label(self, f, op, env={}, depth=6):
        """label (enum variant) of the record pushed by op"""
        o, d, pr = origin(f, op)
        if o == 'rv' and d.kind == 'agg' and d.a == 'struct' and self.label_field < len(d.ops):
            return self.variant(f, d.ops[self.label_field], env)
        if o == 'call' and depth:
            t = d[1]
            gs = self.p.resolve(t.func, f.crate) if t.func else []
            ls = set()
            for g in gs:
                from flow import defs
                for x in defs(g).get(0, []):
                    if x[0] == 'arg':
                        ls.add('?')
                    elif getattr(x[2], 'kind', '') == 'agg' and self.label_field < len(x[2].ops):
                        v = self.variant(g, x[2].ops[self.label_field])
                        if v == '?' :
                            oo, dd, pp = origin(g, x[2].ops[self.label_field])
                            if oo == 'arg' and dd in g.args and g.args.index(dd) < len(t.args):
                                v = self.variant(f, t.args[g.args.index(dd)], env)
                        ls.add(v)
                    else:
                        ls.add('?')
            if len(ls) == 1:
                return ls.pop()
        return '?'

    def variant(self, f, op, env={}):
        if op.place is not None and not op.place.proj:
            w = env.get(op.place.local)
            if isinstance(w, tuple) and w[0] == 'lv':
                return w[1]
        ns = [n for n, _ in self.label_enum.variants]
        o, d, pr = origin(f, op)
        if o in ('arg', 'local') and not pr:
            w = env.get(d)
            if isinstance(w, tuple) and w[0] == 'lv':
                return w[1]
        txt = None
        if o == 'rv' and d.kind == 'agg':
            txt = d.text
        elif o == 'const':
            txt = d.text
            if d.path and '#promoted' in (d.path or ''):
                g = self.p.by_key.get(f.key + '#promoted[' + d.path.split('promoted[')[1])
                if g is not None:
                    for b in g.blocks:
                        for s in g.blocks[b].stmts:
                            if s.kind == 'assign' and s.rv.kind == 'agg' and self.label_enum.name in (s.rv.text or ''):
                                txt = s.rv.text
        if txt:
            m = re.search(r'::(\w+)\s*$', txt)
            if m and m.group(1) in ns:
                return m.group(1)
        return '?'

    def stack_of(self, f, t):
        """(element type) if the call works on one of the scope stacks"""
        m = re.match(r'(?:std|alloc)::vec::Vec::<(?:[\w:]*::)?(\w+)>::(push|pop)$', t.func or '')
        if not m or m.group(1) not in self.stacks:
            return None
        o, d, pr = self.org(f, t.args[0])
        if o == 'local' and not self.path(pr):
            if re.match(r'(?:std|alloc)::vec::Vec<', f.types.get(d, '')):
                return None
        return m.group(1), m.group(2)

    def value(self, f, b, s, ts, env):
        if self.label_el and s.kind == 'assign' and s.rv.kind == 'discr' and not s.place.proj:
            pl = s.rv.ops[0].place
            if pl.proj and pl.proj[-1] != '*' and pl.proj[-1][:2] == ('f', self.label_field) and simple(f.types.get(pl.local, '')) == self.label_el:
                return ('lab', None)
            o, d, pr = self.org(f, s.rv.ops[0])
        return None

    def refine(self, f, b, o, k, ts, env):
        # a place found to be None holds no placeholder
        if k == 0 and ts[0] and o.place is not None:
            d = single_def(f, o.place.local)
            if d is not None and d[0] != 'arg' and getattr(d[2], 'kind', '') == 'discr':
                pl = d[2].ops[0].place
                if 'option::Option<' in f.types.get(pl.local, ''):
                    return (self.discharge(ts[0], pl), ts[1], ts[2])
        return ts

    def switch_tag(self, f, b, tag, k, vals, ts, env):
        ns = [n for n, _ in self.label_enum.variants]
        toks, loops, dep = ts
        cur = loops[-1] if loops else '?'
        if tag[1] is None:
            poss = {ns[k]} if k is not None and k < len(ns) else {n for i, n in enumerate(ns) if i not in vals}
        else:
            want = (k == 1) if k is not None else (1 not in vals)
            if tag[2]:
                want = not want
            poss = {tag[1]} if want else set(ns) - {tag[1]}
        if cur != '?':
            return ts if cur in poss else None
        if len(poss) == 1 and loops:
            return (toks, loops[:-1] + (poss.pop(),), dep)
        return ts

    def call(self, f, b, t, ts, env):
        fn = t.func or ''
        toks, loops, dep = ts
        if not t.succ:
            return None
        site = '%s#%s' % (f.key, b)
        direct = self.p.resolve(t.func, f.crate) if t.func else []
        keys = [g.key for g in direct]
        dl = t.dest.local if t.dest is not None and not t.dest.proj else None
        def done(toks, tag=None, loops=loops, dep=dep):
            return [((toks, loops, dep), tag)]
        # record for a new instruction sequence in progress
        if self.label_el and direct and direct[0].key in self.rel and any(simple(direct[0].types[a]) == 'Codegen' for a in direct[0].args):
            for a in t.args:
                if a.place is not None:
                    o, d, pr = self.org(f, a)
                    if o == 'local' and not self.path(pr) and simple(f.types.get(d, '')) == 'ISeq' and not f.types[d].startswith('&'):
                        self.newseq.append((f.key, b, loops[-1] if loops else '?', dep))
        if self.base_w in keys:
            self.writes.add((f.key, b))
            if t.args[1].place is not None:
                toks = self.discharge(toks, t.args[1].place)
            return done(toks)
        if keys and keys[0] in self.base_g:
            self.gens.add((f.key, b))
            toks = self.drop_local(toks, dl) if dl is not None else toks
            return done(self.add(toks, site, (dl, ())) if dl is not None else toks | {('lost', site)})
        so = self.stack_of(f, t)
        if so:
            e, what = so
            k = self.stacks[e][0]
            d2 = list(dep)
            d2[k] = max(-4, min(4, d2[k] + (1 if what == 'push' else -1)))
            (self.pushes if what == 'push' else self.pops).add((f.key, b))
            if e == self.label_el:
                if what == 'push':
                    loops = (loops + (self.label(f, t.args[1], env),))[-6:]
                    lab = None
                else:
                    lab = loops[-1] if loops else '?'
                    loops = loops[:-1]
            else:
                lab = '?'
            if what == 'pop' and e in self.records and dl is not None:
                toks = self.drop_local(toks, dl)
                if lab == '?' or (e, lab) in self.transfers_prev:
                    for s2, i in sorted(self.fields):
                        if s2 == e:
                            nm = self.struct(e).fields[i][0]
                            toks = self.add(toks, '%s (branches collected in `%s`)' % (site, nm), (dl, (('f', i),)), True)
            return [((toks, loops, tuple(d2)), 1 if what == 'pop' else None)]
        if self.label_el and re.search(r'<(?:\w+::)*%s as std::cmp::PartialEq>::(eq|ne)$' % self.label_enum.name, fn):
            for i in (0, 1):
                v = self.variant(f, t.args[i])
                if v != '?':
                    return done(toks, ('lab', v, fn.endswith('ne')))
        if re.search(r'vec::Vec::<.*>::(push|insert)$', fn) and toks:
            x = t.args[-1]
            h = self.held(toks, x.place) if x.place is not None else []
            if h:
                o, d, pr = self.org(f, t.args[0])
                gone = {y for y, _ in h}
                rest = frozenset(y for y in toks if y not in gone)
                P = self.path(pr)
                vec_local = (o == 'local' and '*' not in pr or o == 'arg' and '*' not in pr[1:]) and not self.record_base(f, d, pr)
                if vec_local:
                    for y in gone:
                        rest = self.add(rest, y[0], (d, P), True)
                else:
                    fld = self.field_of(f, t.args[0])
                    if fld is None:
                        self.bad('%s: placeholder stored where its destination cannot be followed' % site, f)
                    else:
                        self.found.add(fld)
                        self.transfers.add((fld[0], (loops[-1] if loops else '?') if fld[0] == self.label_el else '-', f.key, b))
                return done(rest)
            return None
        held = []
        for i, a in enumerate(t.args):
            if a.place is not None:
                h = self.held(toks, a.place)
                if h:
                    held.append((i, a, h))
        if NEXT.search(fn) and held and dl is not None:
            i, a, h = held[0]
            gone = {y for y, _ in h}
            none = frozenset(y for y in toks if y not in gone)
            none = self.drop_local(none, dl)
            some = self.drop_local(toks, dl)
            self.drains.add((f.key, b))
            src = sorted(gone, key=str)[0][0]
            some = self.add(some, src if isinstance(src, tuple) else '%s (element)' % src.replace(' (element)', ''), (dl, ()))
            return [((none, loops, dep), 0), ((some, loops, dep), 1)]
        if held and f.types.get(dl) == 'bool' and (not direct and EMPTY.search(fn) or self.empty_fn(direct)):
            i, a, h = held[0]
            gone = {y for y, _ in h}
            return [((frozenset(y for y in toks if y not in gone), loops, dep), 1), ((toks, loops, dep), 0)]
        if any(g.key in self.rel for g in direct):
            return None
        # library functions and functions outside the generator
        cl = [g for g in self.p.callees(f, t) if g.is_closure and g not in direct]
        if held and cl and CONSUME.search(fn):
            for g in cl:
                if self.consumes(g):
                    i, a, h = held[0]
                    gone = {y for y, _ in h}
                    self.drains.add((f.key, b))
                    toks = frozenset(y for y in toks if y not in gone)
                    return done(toks, None)
        pairs = [x for i, a, h in held for x in h]
        if pairs and DROPS.search(fn) and any(y[2] for y, r in pairs):
            # only some of the elements: those of the collection as a whole are no longer all filled in by draining the result
            toks = toks | {('lost', y[0]) for y, r in pairs if y[2]}
        if dl is not None and toks:
            if pairs and not re.match(r'^(bool|\(\)|[iu](8|16|32|64|size))$', f.types.get(dl, '')):
                toks = self.join(self.drop_local(toks, dl) if not any(h[0] == dl for t2, r in pairs for h in t2[1]) else toks, pairs, dl)
            else:
                toks = self.drop_local(toks, dl)
        if toks is not ts[0]:
            return self.generic(f, b, t, (toks, loops, dep), env)
        return None

    def generic(self, f, b, t, ts, env):
        """engine's treatment of Option/Result helpers with the changed state"""
        e = self.engine
        c, self.call = self.call, lambda *a: None
        try:
            return e._call(f, b, t, ts, env)
        finally:
            self.call = c

    def record_base(self, f, l, pr):
        return simple(f.types.get(l, '')) in self.records or simple(f.types.get(l, '')) in ('Codegen', 'Context')

    def field_of(self, f, op):
        """(struct, index) of the field op refers to"""
        o, d, pr = self.org(f, op)
        P = self.path(pr)
        pl = op.place
        # follow the reference one step at a time: `_5 = &mut (*_4).1`
        for _ in range(20):
            if pl.proj and self.path(pl.proj):
                ty = simple(f.types.get(pl.local, ''))
                ps = self.path(pl.proj)
                for x in ps[:-1]:
                    its = [i for i in self.p.items.get(ty, []) if i.kind == 'struct']
                    if len(its) != 1 or x[1] >= len(its[0].fields):
                        return None
                    ty = simple(its[0].fields[x[1]][1].strip())
                return (ty, ps[-1][1])
            dd = single_def(f, pl.local)
            if dd is None or dd[0] == 'arg' or hasattr(dd[2], 'func'):
                return None
            rv = dd[2]
            if rv.kind in ('use', 'ref', 'cast', 'addr') and rv.ops[0].place is not None:
                pl = rv.ops[0].place
                continue
            return None
        return None

    def empty_fn(self, direct):
        """program function that returns true only if all branch-collecting fields of its record are empty"""
        if len(direct) != 1 or (direct[0].ret or '') != 'bool' or not direct[0].args:
            return False
        g = direct[0]
        st = simple(g.types[g.args[0]])
        if st not in self.records:
            return False
        need = {i for s, i in self.fields if s == st}
        if g.key in self.closures:
            return self.closures[g.key]
        # paths returning true must have passed is_empty() == true for every field
        ok = [True]
        def walk(b, got, env, depth):
            if depth > 60:
                ok[0] = False
                return
            env = dict(env)
            blk = g.blocks[b]
            for s in blk.stmts:
                if s.kind == 'assign' and not s.place.proj:
                    if s.rv.kind == 'use' and s.rv.ops[0].kind == 'const':
                        env[s.place.local] = {'true': True, 'false': False}.get(s.rv.ops[0].text)
                    elif s.rv.kind == 'use' and s.rv.ops[0].place is not None and not s.rv.ops[0].place.proj:
                        env[s.place.local] = env.get(s.rv.ops[0].place.local)
                    else:
                        env.pop(s.place.local, None)
            t = blk.term
            if t.kind == 'return':
                v = env.get(0)
                if isinstance(v, tuple):
                    got = got | {v[1]}
                    v = True
                if v is not False and not need <= got:
                    ok[0] = False
                return
            if t.kind == 'call' and t.succ:
                if EMPTY.search(t.func or ''):
                    fld = self.field_of(g, t.args[0])
                    env[t.dest.local] = ('e', fld[1]) if fld and fld[0] == st else None
                else:
                    env.pop(t.dest.local, None)
                walk(t.succ[0], got, env, depth + 1)
                return
            if t.kind == 'switch' and t.op.place is not None:
                v = env.get(t.op.place.local)
                for k, d in t.targets:
                    e2 = dict(env)
                    g2 = got
                    if isinstance(v, tuple):
                        tr = k is None or k == 'otherwise' or k == 1
                        e2[t.op.place.local] = tr
                        if tr:
                            g2 = got | {v[1]}
                    walk(d, g2, e2, depth + 1)
                return
            for x in t.succ:
                walk(x, got, env, depth + 1)
        walk(0, frozenset(), {}, 0)
        self.closures[g.key] = ok[0]
        return ok[0]

    def consumes(self, g):
        """closure g gives every token in its (non-capture) parameters a destination"""
        if g.key in self.closures:
            return self.closures[g.key]
        sub = Tok(self.ctx, self.fields)
        sub.transfers_prev = self.transfers_prev
        toks = frozenset((('P', i), frozenset([(a, ())]), False) for i, a in enumerate(g.args) if i > 0)
        e = Engine(self.p, sub)
        ts = (toks, ('?',), sub.zero(), ())
        e.run([(g, ts)])
        r = all(not out[0][1] for out in e.table[(g.key, ts)])
        self.writes |= sub.writes
        self.closures[g.key] = r
        return r

    # ------------------------------------------------------------ calls
    def enter(self, f, b, t, g, ts, env):
        toks, loops, dep = ts
        ptoks = set()
        for i, a in enumerate(t.args):
            if a.place is not None and i < len(g.args):
                for y, rest in self.held(toks, a.place):
                    ptoks.add((('P', i), frozenset([(g.args[i], rest)]), y[2]))
        own = self.codegen_local(f, t)
        lv = []
        for i, a in enumerate(t.args):
            if self.label_el and i < len(g.args) and simple(g.types[g.args[i]]) == self.label_enum.name:
                v = self.variant(f, a, env)
                if v != '?':
                    lv.append((g.args[i], ('lv', v)))
        return (frozenset(ptoks), (self.initial if own else (loops[-1] if loops else '?'),), self.zero(), tuple(lv))

    def codegen_local(self, f, t):
        for a in t.args:
            if a.place is not None:
                o, d, pr = self.org(f, a)
                if o == 'local' and not self.path(pr) and simple(f.types.get(d, '')) == 'Codegen' and not f.types[d].startswith('&'):
                    return True
        return False

    def leave(self, f, b, t, g, ts, tin, tout, tag, env):
        toks, loops, dep = ts
        R, left, added, ret, lo, de = tout
        inp = {x[0][1] for x in tin[0]}
        for i in inp:
            if i not in left:
                self.writes.add((f.key, b))
                toks = self.discharge(toks, t.args[i].place)
        dl = t.dest.local if t.dest is not None and not t.dest.proj else None
        if dl is not None:
            toks = self.drop_local(toks, dl)
        site = '%s#%s' % (f.key, b)
        for i, P in added:
            o, d, pr = self.org(f, t.args[i])
            if o in ('local', 'arg'):
                toks = self.add(toks, site, (d, self.path(pr) + P), True)
            else:
                self.bad('%s: placeholder stored where its destination cannot be followed' % site, f)
        for P, multi in ret:
            toks = self.add(toks, site, (dl, P), multi) if dl is not None else toks | {('lost', site)}
        cg = any(simple(g.types[a]) == 'Codegen' for a in g.args)
        if cg and not self.codegen_local(f, t):
            if g.key not in self.recursive:
                dep = tuple(max(-4, min(4, x + y)) for x, y in zip(dep, de))
                loops = (loops[:-1] + lo)[-6:]
        return [((toks, loops, dep), tag)]

    def bad(self, msg, f):
        self.bads.setdefault(msg, f)

    def at_return(self, f, b, ts, env):
        toks, loops, dep = ts
        v = env.get(0)
        v = v[1] if isinstance(v, tuple) and v[0] == 'pv' else v
        failed = 'Result<' in (f.ret or '') and v == 1
        left, added, ret = set(), set(), set()
        if not failed:
            for t in toks:
                if t[0] == 'lost':
                    if isinstance(t[1], tuple):
                        left.add(t[1][1])
                    else:
                        self.bad(t[1], f)
                    continue
                if isinstance(t[0], tuple):
                    left.add(t[0][1])
                    continue
                out = False
                for l, H in t[1]:
                    if l == 0:
                        ret.add((H, t[2]))
                        out = True
                    elif l in f.args and f.types[l].startswith('&mut'):
                        added.add((f.args.index(l), H))
                        out = True
                if not out:
                    self.bad(t[0], f)
            self.exits.setdefault(f.key, set()).add((loops, dep))
        return ('R', frozenset(left), frozenset(added), frozenset(ret), loops, dep)

def run(ctx):
    p = ctx.p
    fields, trans = set(), set()
    for rnd in range(8):
        c = Tok(ctx, fields)
        c.transfers_prev = {(s, l) for s, l, k, b in trans}
        # label of the record present when a code generator is made
        labs = set()
        if c.label_el:
            for g in p.fns:
                if g.self_type == 'Codegen' and not g.is_closure and not any(simple(g.types[a]) == 'Codegen' for a in g.args):
                    for b, t in g.calls():
                        for h in p.resolve(t.func, g.crate) if t.func else []:
                            if h.self_type == c.label_el and simple(h.ret or '') in (c.label_el, 'Self') and t.dest is not None and h.trait is None:
                                labs.add(c.label(g, _op(t.dest)))
        c.initial = labs.pop() if len(labs) == 1 else '?'
        eng = Engine(p, c)
        roots = []
        called = {k for f in p.fns for b, t in f.calls() for k in [h.key for h in p.callees(f, t)] if f.key in c.rel and k != f.key}
        for f in p.fns:
            if f.key in c.rel and f.key not in called:
                roots.append((f, (frozenset(), (c.initial,) if any(simple(f.types[a]) == 'Codegen' for a in f.args) else ('?',), c.zero(), ())))
            elif f.kind == 'fn' and f.key not in c.rel and not f.is_closure and f.crate == 'ruruby' and f.self_type == 'Codegen' and f.trait is None:
                roots.append((f, (frozenset(), (c.initial,), c.zero(), ())))
        eng.run(roots)
        nt = {x for x in c.transfers}
        if not c.found <= fields:
            fields |= c.found
            trans = set()
            continue
        if c.found <= fields and {(s, l) for s, l, k, b in nt} == {(s, l) for s, l, k, b in trans}:
            break
        fields |= c.found
        trans |= nt
    else:
        raise AnalysisError('fields collecting branches not determined')
    for s in sorted(x for x in c.tokens_at if isinstance(x, str) and '(element)' not in x):
        if s not in c.bads:
            ctx.ok('branch given its destination', s)
    for m in sorted(c.bads):
        f = c.bads[m]
        k = m.split('#')[0]
        g = p.by_key.get(k, f)
        blk = re.match(r'.*#(\d+)', m)
        w = g.loc(int(blk.group(1))) if blk and hasattr(g, 'loc') and _locok(g) else g.loc()
        ctx.bad('branch given its destination', re.sub(r'#\d+', '', m), 'a forward branch emitted or collected in %s has no destination on some path on which compilation succeeds (block %s)' % (
            k, blk.group(1) if blk else '?'), w)
    tl = {(s, l) for s, l, k, b in c.transfers}
    for s, l, k, b in sorted(c.transfers):
        if s == c.label_el and l == c.initial:
            ctx.bad('branch recorded in a loop', k, '%s records a branch in the outermost scope record, which is never closed' % k, p.by_key[k].loc())
        else:
            ctx.ok('branch recorded in an open scope', '%s#%s' % (k, b))
    ci = [i for i, n in c.names.items() if n == 'context_stack']
    for k, b, l, dep in sorted(set(c.newseq)):
        if l == '?' or (c.label_el, l) in tl:
            ctx.bad('nested code has its own scope record', k, '%s generates code for a new instruction sequence while the enclosing sequence\'s loop record (%s) is open' % (k, l), p.by_key[k].loc())
        else:
            ctx.ok('nested code has its own scope record', '%s#%s' % (k, b))
        rec = [c.stacks[e][0] for e in c.stacks if any(i.kind == 'struct' and any(r in t for n, t in i.fields for r in c.records if r != c.label_el) for i in p.items.get(e, []))]
        for i in rec:
            if dep[i] < 1:
                ctx.bad('nested code has its own context', k, '%s generates code for a new instruction sequence without opening a context for it' % k, p.by_key[k].loc())
            else:
                ctx.ok('nested code has its own context', '%s#%s' % (k, b))
    touching = {k for k, b in c.pushes} | {k for k, b in c.pops}
    for k in sorted(c.rel):
        ex = c.exits.get(k, set())
        f = p.by_key[k]
        for i, n in sorted(c.names.items()):
            vals = {d[i] for l, d in ex}
            kind = 'scope records closed on success'
            if vals <= {0}:
                ctx.ok(kind, '%s `%s`' % (k, n) if k in touching else None)
            elif len(vals) == 1 and k not in c.recursive:
                ctx.ok('uniform helper effect', '%s `%s`' % (k, n))
            else:
                inner = [x for x in c.calls[k] if x != k and x in c.exits and len({d[i] for l, d in c.exits[x]}) > 1]
                if inner and k not in touching:
                    continue
                ctx.bad(kind, '%s `%s`' % (k, n), '%s: records on `%s` opened and closed do not match on a path on which compilation succeeds (%s)' % (k, n, sorted(vals)), f.loc())
    ctx.seen('functions analysed', len(eng.functions))
    ctx.seen('branch emissions', len(c.gens))
    ctx.seen('destinations written', len(c.writes))
    ctx.seen('drain loops', len(c.drains))
    ctx.seen('scope pushes', len(c.pushes))
    ctx.seen('scope pops', len(c.pops))
    ctx.floor('functions analysed', 20)
    ctx.floor('branch emissions', 15)
    ctx.floor('destinations written', 12)
    ctx.floor('scope pushes', 5)
    ctx.notes.append('fields collecting branches: %s' % ', '.join('%s.%s' % (s, c.struct(s).fields[i][0]) for s, i in sorted(fields)))
    if eng.merged:
        raise AnalysisError('state limit reached in %s' % sorted(eng.merged))
    ctx.assume('a failed compilation (Err) abandons the code generator and the instruction sequence')

def _locok(g):
    return False

def _op(pl):
    class O:
        pass
    from mir import Op
    o = Op.__new__(Op)
    o.kind, o.place, o.text, o.path = 'copy', pl, None, None
    return o
