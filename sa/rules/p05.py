"""Instruction encoding. Abstract interpretation of both sides of the bytecode over MIR. Decoder: the interpreter loop and everything it calls
that moves the program counter is explored path by path; for each opcode the sequence of operand widths and kinds fetched before the next
opcode fetch, jump or frame push is collected. Encoder: every function reachable from the code generators is explored path by path; bytes
appended after each opcode are counted until the instruction has the length inst_size gives it. Obligations: every emitted opcode has a
handler and a known length; each emission site appends exactly inst_size-1 operand bytes; each path through each handler fetches exactly
those bytes; operand by operand, the kinds written and read agree; jump displacements come last; instructions the peephole pass rewrites in
place have the sizes it assumes."""
import re
from program import AnalysisError, simple
from flow import const_value, find_const, origin, single_def, defs
from typestate import Engine, Client
import facts

def opcodes(p):
    """value -> name of every instruction constant, and the size table"""
    ops = {}
    for f in p.fns:
        if f.kind in ('const', 'const_assoc', 'static') or (f.self_type == 'Inst' and f.kind != 'fn'):
            pass
    return ops

def run_inst_size(p, g, v):
    """value of a one-argument function on a constant argument, by following its switches"""
    env = {g.args[0]: v}
    b = 0
    for _ in range(300):
        blk = g.blocks[b]
        for s in blk.stmts:
            if s.kind == 'assign' and not s.place.proj:
                r = None
                if s.rv.kind == 'use' or s.rv.kind == 'agg' and len(s.rv.ops) == 1:
                    o = s.rv.ops[0]
                    r = env.get(o.place.local) if o.place is not None and not o.place.proj else const_value(p, o, g.crate) if o.place is None else None
                elif s.rv.kind == 'cast' and s.rv.ops[0].place is not None:
                    r = env.get(s.rv.ops[0].place.local)
                elif s.rv.kind == 'bin':
                    x = [env.get(o.place.local) if o.place is not None else const_value(p, o, g.crate) for o in s.rv.ops]
                    if all(isinstance(k, int) for k in x):
                        op = s.rv.a
                        r = {'Eq': int(x[0] == x[1]), 'Ne': int(x[0] != x[1]), 'Lt': int(x[0] < x[1]), 'Le': int(x[0] <= x[1]), 'Gt': int(x[0] > x[1]), 'Ge': int(x[0] >= x[1]),
                             'Add': x[0] + x[1], 'Sub': x[0] - x[1]}.get(op)
                env[s.place.local] = r
        t = blk.term
        if t.kind == 'return':
            return env.get(0)
        if t.kind == 'switch':
            x = env.get(t.op.place.local) if t.op.place is not None else None
            if x is None:
                return None
            nxt = [d for k, d in t.targets if k == x] or [d for k, d in t.targets if k is None or k == 'otherwise']
            if not nxt:
                return None
            b = nxt[0]
        elif t.kind == 'call' and t.succ and len(t.args) == 1 and not t.dest.proj:
            o = t.args[0]
            x = env.get(o.place.local) if o.place is not None else const_value(p, o, g.crate)
            h = p.resolve(t.func, g.crate) if t.func else []
            env[t.dest.local] = run_inst_size(p, h[0], x) if len(h) == 1 and h[0].key != g.key and isinstance(x, int) else None
            b = t.succ[0]
        elif t.kind in ('goto', 'assert', 'drop') and t.succ:
            b = t.succ[0]
        else:
            return None
    return None

def is_code(p, o, crate):
    if o.kind != 'const' or o.path is None:
        return False
    g = find_const(p, o.path, crate)
    return g is not None and g.self_type == 'Inst'

KIND = [('IdentId', 'id'), ('LvarId', 'lvar'), ('ISeqDisp', 'disp'), ('FnId', 'method'), ('ArgFlag', 'flag'), ('Value', 'value')]
def kind_of(t):
    for n, k in KIND:
        if re.match(r"(?:&(?:'\w+ )?(?:mut )?)*(?:[\w:]*Option<)?(?:\w+::)*%s\b" % n, t or ''):
            return k
    return 'int'

class Decode(Client):
    enums = frozenset(['VMResKind'])
    def __init__(self, p):
        self.p = p
        self.loop = p.find('VM', 'run_context_main')[0]
        self.readers = {}
        self.invoke = [n for it in p.items.get('VMResKind', []) for n, _ in it.variants].index('Invoke')
        for f in p.fns:
            if f.self_type == 'ISeqPtr' and f.trait is None and f.args and f.types[f.args[0]].startswith('&mut'):
                w = self.width(f)
                if w is None:
                    raise AnalysisError('operand reader %s: cannot tell how far it advances' % f.key)
                self.readers[f.key] = (w, kind_of(f.types[0]))
        if len(self.readers) < 4:
            raise AnalysisError('operand readers not found')
        stop = {self.loop.key} | {f.key for f in p.find('VM', 'exec_native')}
        base = set(self.readers) | {f.key for f in p.fns if facts.mutations(p, f, {('VM', 'pc')})}
        calls = facts.call_graph(p)
        self.nested = {k for k, cs in calls.items() if self.loop.key in cs}
        if not self.nested:
            raise AnalysisError('no caller of the interpreter loop found')
        stop |= self.nested
        rel = set(base)
        ch = True
        while ch:
            ch = False
            for k, cs in calls.items():
                if k not in rel and (cs - stop) & rel:
                    rel.add(k)
                    ch = True
        self.rel = rel - stop
        self.seqs, self.where, self.default = {}, {}, None
        self.ops, self.late = None, {}
    def width(self, f, depth=0):
        if depth > 5:
            return None
        n = 0
        for b, t in f.calls():
            if not t.func:
                return None
            ls = facts.last_seg(t.func)
            gs = self.p.resolve(t.func, f.crate)
            if ls == 'add_assign' or (gs and gs[0].name == 'add_assign'):
                v = const_value(self.p, t.args[1], f.crate) if t.args[1].place is None else None
                if v is None:
                    return None
                n += v
            elif gs and gs[0].self_type == 'ISeqPtr' and gs[0].trait is None:
                w = self.width(gs[0], depth + 1)
                if w is None:
                    return None
                n += w
            elif gs and gs[0].self_type == 'ISeqPtr' and gs[0].name == 'add':
                v = const_value(self.p, t.args[1], f.crate) if t.args[1].place is None else None
                n += v if v is not None else 0
        return n
    def is_pc(self, f, op):
        if op.place is None:
            return False
        k, d, pr = origin(f, op)
        if k == 'arg':
            from mir import Place
            return ('VM', 'pc') in facts.fields(self.p, f, Place(d, pr))
        # &mut (*self).pc through one temporary
        l = op.place.local
        x = single_def(f, l)
        while x and x[0] != 'arg' and getattr(x[2], 'kind', '') in ('ref', 'use', 'addr') and x[2].ops[0].place is not None:
            if ('VM', 'pc') in facts.fields(self.p, f, x[2].ops[0].place):
                return True
            x = single_def(f, x[2].ops[0].place.local)
        return False
    def relevant(self, g):
        return g.key in self.rel and g.key not in self.readers
    def use_kind(self, f, l, depth=0):
        """kind of an integer operand from the conversions it is put through, also in the functions it is passed to"""
        m = getattr(f, '_usekind', None)
        if m is None:
            m = f._usekind = {}
        if l not in m:
            ls, kinds = {l}, set()
            ch = True
            while ch:
                ch = False
                for x in f.blocks:
                    for s in f.blocks[x].stmts:
                        if s.kind == 'assign' and not s.place.proj and s.place.local not in ls and s.rv.kind in ('use', 'cast') and \
                                s.rv.ops[0].place is not None and s.rv.ops[0].place.local in ls and not s.rv.ops[0].place.proj and len(defs(f).get(s.place.local, ())) == 1:
                            ls.add(s.place.local)
                            ch = True
            for x, c in f.calls():
                for i, a in enumerate(c.args):
                    if a.place is None or a.place.proj or a.place.local not in ls:
                        continue
                    if facts.last_seg(c.func) in ('into', 'from', 'from_u32', 'from_i32') and not c.dest.proj:
                        kinds.add(kind_of(f.types.get(c.dest.local, '')))
                    elif depth < 3 and c.func:
                        for g in self.p.resolve(c.func, f.crate):
                            if i < len(g.args):
                                kinds.add(self.use_kind(g, g.args[i], depth + 1))
            kinds.discard('int')
            m[l] = kinds.pop() if len(kinds) == 1 else 'int'
        return m[l]
    def done(self, f, ts, why, span):
        op, seq = ts[:2]
        if op is not None:
            self.seqs.setdefault(op, {}).setdefault(seq, (f.key, f.loc(span), why))
    def stmt(self, f, b, i, s, ts, env):
        if s.kind == 'assign' and ('VM', 'pc') in facts.fields(self.p, f, s.place) and f.key != self.loop.key:
            # a new frame: nothing more may be fetched for this instruction unless a nested run restores the counter
            return (ts[0], ts[1], True)
        return ts
    def call(self, f, b, t, ts, env):
        gs = self.p.resolve(t.func, f.crate) if t.func else []
        if gs and gs[0].key in self.readers and self.is_pc(f, t.args[0]):
            w, k = self.readers[gs[0].key]
            if k == 'int':
                k = self.use_kind(f, t.dest.local)
            op, seq, left = ts
            if len(seq) > 12:
                raise AnalysisError('operand reads in a loop in %s' % f.key)
            if left and f.key != self.loop.key:
                self.late.setdefault((f.key, op), f.loc(t.span))
            return [((op, seq + ((w, k),), left), ('rd', b))]
        if gs and gs[0].self_type == 'VMResKind' and gs[0].types.get(1) and simple(gs[0].types[1]) == 'VMResKind' and t.args[0].place is not None:
            v = env.get(t.args[0].place.local)
            if v == self.invoke:
                return [((ts[0], ts[1], False), None)]
            if isinstance(v, int):
                return [(ts, None)]
        if gs and gs[0].key in self.nested:
            return [((ts[0], ts[1], False), None)]
        if gs and gs[0].self_type == 'ISeqPtr' and gs[0].name in ('add_assign', 'sub_assign') and self.is_pc(f, t.args[0]):
            if f.key == gs[0].key:
                return None
            self.done(f, ts, 'jump', t.span)
            return [(ts, None)]
        return None
    def switch_tag(self, f, b, v, k, vals, ts, env):
        if v[0] == 'rd' and len(vals) > 40:
            op, seq, left = ts
            if b not in self.where:
                self.where[b] = f.key
                self.ops = set(vals) if self.ops is None else self.ops | set(vals)
            if not env.get('_', 0):
                self.done(f, (op, seq[:-1], False), 'next instruction', f.blocks[b].term.span)
            if k is None:
                return None
            return (k, (), False)
        return ts
    def leave(self, f, b, t, g, ts, tin, tout, tag, env):
        return [(tout, tag)]

class Encode(Client):
    """state: 'done' between instructions, or (opcode, ((offset, kind), ...)) inside one"""
    def __init__(self, p, size, names):
        self.p, self.size, self.names = p, size, names
        self.pushes = {}
        for f in p.fns:
            if f.self_type == 'ISeq' and f.trait is None and f.args and f.types[f.args[0]].startswith('&mut') and len(f.args) == 2:
                w = self.appended(f)
                if w:
                    self.pushes[f.key] = (w, kind_of(f.types[f.args[1]]), f.types[f.args[1]])
        if len(self.pushes) < 3:
            raise AnalysisError('instruction writers not found')
        self.rel = facts.reach_callers(p, set(self.pushes))
        self.emitted, self.viol, self.sites, self.kinds = {}, {}, set(), {}
    def appended(self, f, depth=0):
        """bytes appended on every path, or None"""
        if depth > 4:
            return None
        amounts = {}
        if any(is_code(self.p, o, f.crate) for o in facts.operands(f)):
            return None
        def one(b, t):
            gs = self.p.resolve(t.func, f.crate) if t.func else []
            ls = facts.last_seg(t.func)
            if gs and gs[0].self_type == 'ISeq' and gs[0].trait is None and f.types.get(gs[0].args[0] if False else 0) is not None:
                if gs[0].types[gs[0].args[0]].startswith('&mut') if gs[0].args else False:
                    return self.appended(gs[0], depth + 1)
                return 0
            if ls == 'push' and 'Vec' in (t.func or ''):
                return 1
            if ls in ('extend_from_slice', 'extend') and 'Vec' in (t.func or ''):
                k, d, pr = origin(f, t.args[1])
                m = None
                if k == 'call':
                    m = re.search(r'impl u(\d+)>::to_(le|ne|be)_bytes', d[1].func or '')
                return int(m.group(1)) // 8 if m else None
            return 0
        for b, t in f.calls():
            r = one(b, t)
            if r is None:
                return None
            amounts[b] = r
        # constant over paths
        memo = {}
        def total(b, seen):
            if b in memo:
                return memo[b]
            if b in seen:
                return {None}
            r = {amounts.get(b, 0) + x if x is not None else None for s in f.succs(b) for x in total(s, seen | {b})} if f.succs(b) else \
                ({amounts.get(b, 0)} if f.blocks[b].term.kind == 'return' else set())
            memo[b] = r
            return r
        r = total(0, frozenset())
        return r.pop() if len(r) == 1 else None
    def relevant(self, g):
        return g.key in self.rel and g.key not in self.pushes
    def opname(self, op, v):
        return self.names.get(v, str(v))
    def value(self, f, b, s, ts, env):
        rv = s.rv if s.kind == 'assign' and not s.place.proj else None
        if rv is not None and rv.kind == 'use' and rv.ops[0].kind == 'const':
            o = rv.ops[0]
            if is_code(self.p, o, f.crate):
                v = const_value(self.p, o, f.crate)
                if v is not None:
                    return ('op', v)
        return None
    def opcode(self, f, a, env):
        """('op', v) if the byte pushed is an instruction code"""
        if a.kind == 'const':
            if is_code(self.p, a, f.crate):
                v = const_value(self.p, a, f.crate)
                return ('op', v)
            return None
        v = env.get(a.place.local) if not a.place.proj else None
        if isinstance(v, tuple) and v[0] == 'op':
            return v
        return None
    def entry_env(self, f, ts):
        return ts[-1]
    params = True
    def call(self, f, b, t, ts, env):
        gs = self.p.resolve(t.func, f.crate) if t.func else []
        if gs and gs[0].key in self.pushes:
            w, k, ty = self.pushes[gs[0].key]
            st = ts[0]
            a = t.args[1]
            op = self.opcode(f, a, env) if ty == 'u8' else None
            if op is not None:
                if st != 'done':
                    self.viol.setdefault((f.key, 'incomplete', st[0]), ('instruction %s is followed by another instruction after %d of %s operand bytes' % (
                        self.opname(None, st[0]), st[1], (self.size.get(st[0]) or 1) - 1), f.loc(t.span)))
                v = op[1]
                self.emitted.setdefault(v, set()).add(f.key)
                self.sites.add((f.key, b))
                n = self.size.get(v)
                if n is None:
                    self.viol.setdefault((f.key, 'nosize', v), ('instruction %s is emitted but has no known length' % self.opname(None, v), f.loc(t.span)))
                    return [(('done',), None)]
                return [(('done',) if n == 1 else ((v, 0),), None)]
            if st == 'done':
                self.viol.setdefault((f.key, 'extra', f.loc(t.span).split(':')[0]), ('appends %d operand bytes after the end of an instruction' % w, f.loc(t.span)))
                return [(ts, None)]
            v, off = st
            kk = k if k != 'int' else self.arg_kind(f, a)
            self.kinds.setdefault((v, off), {}).setdefault((w, kk), (f.key, f.loc(t.span)))
            off += w
            n = self.size[v] - 1
            if off > n:
                self.viol.setdefault((f.key, 'extra', v), ('instruction %s gets %d operand bytes, its length allows %d' % (self.opname(None, v), off, n), f.loc(t.span)))
                return [(('done',), None)]
            return [(('done',) if off == n else ((v, off),), None)]
        return None
    def arg_kind(self, f, a):
        if a.kind == 'const':
            return 'any'
        l = a.place.local
        for _ in range(12):
            k = kind_of(f.types.get(l, ''))
            if k != 'int':
                return k
            d = single_def(f, l)
            if d is None or d[0] == 'arg':
                return 'int'
            rv = d[2]
            if hasattr(rv, 'func'):
                ls = facts.last_seg(rv.func)
                if ls in ('into', 'from', 'as_u32', 'to_u32', 'into_usize', 'as_usize', 'id') and rv.args and rv.args[0].place is not None:
                    l = rv.args[0].place.local
                    continue
                return 'int'
            if rv.kind in ('use', 'cast') and rv.ops:
                if rv.ops[0].place is None:
                    return 'any'
                l = rv.ops[0].place.local
                continue
            return 'int'
        return 'int'
    def enter(self, f, b, t, g, ts, env):
        ps = []
        for i, a in enumerate(t.args):
            if i < len(g.args) and g.types[g.args[i]] == 'u8':
                v = self.opcode(f, a, env)
                if v:
                    ps.append((g.args[i], v))
        return (ts[0], tuple(ps))
    def leave(self, f, b, t, g, ts, tin, tout, tag, env):
        return [((tout[0],), tag)]

# ---------------------------------------------------------------- operand values
def byte_no(v, x):
    """v is byte k of the number x -> k"""
    e = v[1] if v[0] in ('int', 'bits') else None
    for _ in range(4):
        if e is None:
            return None
        if e == x:
            return 0
        c, ts = e
        if c != 0 or len(ts) != 1 or ts[0][1] != 1 or not isinstance(ts[0][0], tuple):
            return None
        t = ts[0][0]
        if t[0] in ('trunc', 'wrap') and len(t) == 3:
            e = t[2]
        elif t[0] == 'shr' and len(t) == 3:
            k = t[2]
            if k[1] or k[0] % 8 or byte_no(('int', t[1]), x) != 0:
                return None
            return k[0] // 8
        else:
            return None
    return None

def codecs(ctx, p, e, d):
    """each operand writer stores the bytes of its number in the order each operand reader puts them together again"""
    import absint
    class Codec(absint.Interp):
        def inline(self, g, depth):
            return True
        def hook(self, st, f, t, g, args, fname):
            if g is None and re.search(r'Vec::<[^()]*>::push$|extend_from_slice$', fname):
                st.effects = st.effects + (('w', fname.split('::')[-1], tuple(self.val(st, a) for a in args[1:])),)
                return [(st, ('ret', ('agg', None, 'tuple', ())))]
            if g is not None and g.key in byte1 and f.key != g.key:
                n = sum(1 for x in st.effects if x[0] == 'r')
                st.effects = st.effects + (('r', n),)
                return [(st, ('ret', ('int', absint.asym(('byte', n)))))]
            return None
    byte1 = {k for k, (w, kind) in d.readers.items() if w == 1 and p.by_key[k].types[0] == 'u8'}
    it = Codec(p)
    orders = {}
    for k, (w, kind, ty) in sorted(e.pushes.items()):
        f = p.by_key[k]
        if ty not in absint.RANGE:
            continue
        st = absint.St()
        x = absint.asym(('operand',))
        st.bounds[('operand',)] = absint.RANGE[ty]
        try:
            out = it.run(f, [('o', ('self',)), ('int', x)], st)
        except absint.Limit:
            out = []
        for s, o in out:
            bs = []
            for ef in s.effects:
                if ef[0] != 'w':
                    continue
                if ef[1] == 'push':
                    b = byte_no(ef[2][0], x)
                    bs.append(b)
                else:
                    v = ef[2][0]
                    tm = v[1] if v[0] == 'o' else None
                    m = re.search(r'::to_(le|ne|be)_bytes$', tm[1]) if tm and tm[0] == 'call' else None
                    if m and len(tm) == 3 and byte_no(tm[2], x) == 0:
                        bs += list(range(w)) if m.group(1) != 'be' else list(range(w))[::-1]
                    else:
                        bs += [None] * w
            if o[0] != 'ret' or len(bs) != w or None in bs and any(ef[0] == 'w' and ef[1] != 'push' for ef in s.effects):
                ctx.seen('operand codecs undecided')
            elif bs != list(range(w)):
                ctx.bad('operand codecs', 'writer %s' % k, '%s stores the bytes %s of its operand, not %s (least significant first)' % (k, ['?' if b is None else b for b in bs], list(range(w))), f.loc())
            else:
                ctx.ok('operand codecs', '%s: %d bytes, least significant first' % (k, w))
    for k, (w, kind) in sorted(d.readers.items()):
        f = p.by_key[k]
        if k in byte1 or kind not in ('int', 'disp'):
            continue
        try:
            out = it.run(f, [('o', ('self',))], absint.St())
        except absint.Limit:
            out = []
        for s, o in out:
            txt = re.search(r"::from_(le|ne|be)_bytes', \('agg', None, 'array', (.*)", repr(o))
            got = [int(b) for b in re.findall(r"\('byte', (\d+)\)", txt.group(2))] if txt else None
            if not got or len(got) != w:
                ctx.seen('operand codecs undecided')
                continue
            if txt.group(1) == 'be':
                got = got[::-1]
            (ctx.ok('operand codecs', '%s: %d bytes, least significant first' % (k, w)) if got == list(range(w)) else
             ctx.bad('operand codecs', 'reader %s' % k, '%s puts the fetched bytes together in the order %s' % (k, got), f.loc()))

def run(ctx):
    p = ctx.p
    # ---- names and sizes
    names = {}
    for f in p.fns:
        if f.kind != 'fn' and f.self_type == 'Inst':
            from flow import eval_const
            v = eval_const(p, f)
            if isinstance(v, int):
                names.setdefault(v, f.name)
    sz = p.find('Inst', 'inst_size')
    if len(sz) != 1 or len(names) < 80:
        raise AnalysisError('instruction table not found (%d names, %d size functions)' % (len(names), len(sz)))
    size = {}
    for v in range(256):
        r = run_inst_size(p, sz[0], v)
        if isinstance(r, int):
            size[v] = r
    # ---- decoder
    d = Decode(p)
    Engine(p, d).run([(d.loop, (None, (), False))])
    if not d.ops:
        raise AnalysisError('opcode dispatch not found in the interpreter loop')
    # ---- encoder
    e = Encode(p, size, names)
    calls = facts.call_graph(p)
    called = set().union(*calls.values())
    roots = [(f, ('done', ())) for f in p.fns if f.key in e.rel and f.key not in e.pushes and f.key not in d.rel and (f.key not in called or any(
        t.func and any(g.self_type == 'ISeq' and g.name == 'new' for g in p.resolve(t.func, f.crate)) for b, t in f.calls()))]
    eng = Engine(p, e)
    eng.run(roots)
    for k in eng.table:
        if k[0] in {f.key for f, _ in roots} and k[1][0] == 'done':
            for out, tag in eng.table[k]:
                if out[0] != 'done' and tag != 1:
                    e.viol.setdefault((k[0], 'unfinished', out[0][0]), ('ends inside instruction %s' % names.get(out[0][0]), p.by_key[k[0]].loc()))
    if len(e.emitted) < 80 or len(e.sites) < 90:
        raise AnalysisError('only %d opcodes at %d sites seen by the encoder analysis' % (len(e.emitted), len(e.sites)))
    codecs(ctx, p, e, d)
    badfn = {v[0] for v in e.viol}
    for k, b in sorted(e.sites):
        if k not in badfn:
            ctx.ok('emission sites', '%s' % k)
    for (k, what, op), (msg, loc) in sorted(e.viol.items(), key=repr):
        ctx.bad('emission sites', '%s %s %s' % (k, what, names.get(op, op)), '%s: %s' % (k, msg), loc)
    for v in sorted(e.emitted):
        nm = names.get(v, str(v))
        (ctx.ok('emitted opcodes have a handler', nm) if v in d.ops else
         ctx.bad('emitted opcodes have a handler', 'no handler for %s' % nm, 'instruction %s is emitted by %s but the interpreter loop has no case for it' % (nm, sorted(e.emitted[v])[0]), p.by_key[sorted(e.emitted[v])[0]].loc()))
    # ---- handlers
    for v in sorted(d.ops):
        nm = names.get(v, str(v))
        for seq, (k, loc, why) in sorted(d.seqs.get(v, {}).items(), key=repr):
            n = sum(w for w, _ in seq)
            if v not in size:
                if v in e.emitted:
                    ctx.bad('handler paths', 'no length for %s' % nm, 'instruction %s has no known length' % nm, loc)
            elif n != size[v] - 1:
                ctx.bad('handler paths', '%s fetches %d' % (nm, n), 'a path through the handler of %s (in %s, up to %s) fetches %d operand bytes, the instruction has %d' % (nm, k, why, n, size[v] - 1), loc)
            else:
                ctx.ok('handler paths', '%s: %s' % (nm, ' '.join('%s:%d' % (kd, w) for w, kd in seq)))
            off = 0
            for i, (w, kd) in enumerate(seq):
                if kd == 'disp' and (i != len(seq) - 1 or w != 4):
                    ctx.bad('displacements come last', '%s displacement' % nm, 'the displacement of %s is not its last operand' % nm, loc)
                elif kd == 'disp':
                    ctx.ok('displacements come last', nm)
                for (w2, k2), (fk, floc) in e.kinds.get((v, off), {}).items():
                    if w2 != w:
                        ctx.bad('operands agree', '%s operand at %d: width' % (nm, off), '%s: the operand at offset %d is written as %d bytes by %s but read as %d bytes' % (nm, off + 1, w2, fk, w), floc)
                    elif 'any' in (kd, k2) or kd == k2 or {kd, k2} <= {'int', 'value'} or (k2 == 'int' and kd in ('lvar', 'flag', 'disp')) or (kd == 'int' and k2 in ('lvar', 'flag')):
                        ctx.ok('operands agree', '%s+%d %s' % (nm, off, k2))
                    else:
                        ctx.bad('operands agree', '%s operand at %d: kind' % (nm, off), '%s: the operand at offset %d is written as %s by %s but read as %s' % (nm, off + 1, k2, fk, kd), floc)
                off += w
    for (k, op), loc in sorted(d.late.items(), key=repr):
        ctx.bad('handler paths', '%s: %s reads after leaving' % (k, names.get(op)), '%s fetches operands of %s after the program counter moved to another frame' % (k, names.get(op)), loc)
    # ---- in-place rewriting
    rewrite(ctx, names, size, d)
    ctx.seen('opcodes with a handler', len(d.ops))
    ctx.seen('opcodes emitted', len(e.emitted))
    ctx.seen('encoder functions analysed', len(eng.functions))
    ctx.floor('emission sites', 90)
    ctx.floor('handler paths', 100)
    ctx.floor('operands agree', 60)

def rewrite(ctx, names, size, d):
    """instructions whose displacement is patched relative to the instruction's end must have a displacement as their last operand;
    instructions substituted in place must have length 1"""
    p = ctx.p
    fs = p.find('ISeq', 'optimize')
    for f in fs:
        for b in f.normal_blocks():
            t = f.blocks[b].term
            if t.kind != 'switch' or len(t.targets) < 3 or t.op.place is None or facts.place_type(p, f, t.op.place) != 'u8':
                continue
            for k, dst in t.targets:
                if k is None or k == 'otherwise' or k not in d.ops:
                    continue
                if any(s and s[-1][1] == 'disp' for s in d.seqs.get(k, {})):
                    ctx.ok('peephole targets carry a displacement', names.get(k))
                else:
                    ctx.bad('peephole targets carry a displacement', 'peephole %s' % names.get(k), '%s patches a displacement into %s, whose last operand is not one' % (f.key, names.get(k)), f.loc(t.span))
    for f in p.find('ISeq', 'chase'):
        for b in f.normal_blocks():
            t = f.blocks[b].term
            if t.kind != 'switch' or len(t.targets) < 3 or t.op.place is None or facts.place_type(p, f, t.op.place) != 'u8':
                continue
            for k, dst in t.targets:
                if k is None or k == 'otherwise' or k not in d.ops:
                    continue
                has = any(s and s[-1][1] == 'disp' for s in d.seqs.get(k, {}))
                if has or size.get(k) == 1:
                    ctx.ok('peephole targets carry a displacement', names.get(k))
                else:
                    ctx.bad('peephole targets carry a displacement', 'chase %s' % names.get(k), '%s follows or copies %s, which is neither a jump nor one byte long' % (f.key, names.get(k)), f.loc(t.span))
