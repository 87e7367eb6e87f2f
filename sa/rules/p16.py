"""P16: fiber switching.

1. The naked context-switch functions are executed symbolically on their instruction templates (straight-line code, so this is
   a dataflow over one block): every callee-saved register a switch hands back is the one that was saved, for every pair of
   switches that can meet, each switch saves to the slot its counterpart loads from, and the hand-built first frame of a fiber
   has the same layout and leads entry -> exit stub with the fiber pointer in place and the stack aligned.
2. A typestate over the fiber's state field: who may enter a fiber in which state, which state it is left in, and that a fiber
   whose code has ended can never be entered again, nor one that is already running.
3. Transfer of values: each resume pushes what the suspended side pops, and a result is stored before control goes back."""
import re
from program import AnalysisError, strip_ref, drop_generics
from typestate import Engine, Client
from flow import const_value, defs
from facts import walk

CALLEE = ('rbx', 'rbp', 'r12', 'r13', 'r14', 'r15')
SIZES = {'u64': 8, 'usize': 8, 'i64': 8, 'u32': 4, 'bool': 1, 'u8': 1}

def template(f):
    """instruction lines of a naked function or None"""
    ts = [f.blocks[b].term for b in f.blocks if f.blocks[b].term.kind == 'asm']
    if len(ts) != 1 or any(f.blocks[b].term.kind == 'call' for b in f.blocks):
        return None
    m = re.match(r'asm!\("((?:[^"\\]|\\.)*)"', ts[0].text)
    if not m:
        return None
    src = m.group(1).encode().decode('unicode_escape')
    out = []
    for l in src.split('\n'):
        l = re.sub(r'(//|#|;).*', '', l).strip()
        if l:
            out.append(re.sub(r'\s+', ' ', l))
    return out

class Sim:
    """one naked function: registers hold ('init', r), ('slot', i) of the frame switched to, or ('mem', base, off)"""
    def __init__(self, f, lines):
        self.f = f
        self.regs = {r: ('init', r) for r in CALLEE + ('rdi', 'rsi', 'rax', 'rcx', 'rdx', 'r8', 'r9', 'r10', 'r11')}
        self.pushed = []        # values pushed on the old stack
        self.saved = {}         # field offset -> number of values pushed when rsp was stored
        self.loaded = None      # field offset rsp was loaded from
        self.pops = 0           # slots consumed of the new stack
        self.ret = False
        self.other = []
        for l in lines:
            self.step(l)
        if not self.ret:
            raise AnalysisError('%s: does not end in ret' % f.key)

    def addr(self, x):
        m = re.match(r'\[ ?(\w+) ?(?:([+-]) ?(\d+|0x[0-9a-f]+))? ?\]$', x)
        if not m:
            return None
        o = int(m.group(3), 0) if m.group(3) else 0
        return m.group(1), -o if m.group(2) == '-' else o

    def step(self, l):
        if self.ret:
            raise AnalysisError('%s: code after ret' % self.f.key)
        op, _, rest = l.partition(' ')
        a = [x.strip() for x in rest.split(',')] if rest else []
        if op == 'push':
            if self.loaded is not None:
                self.pops -= 1
                self.other.append(('push after switch', l))
            else:
                self.pushed.append(self.regs[a[0]])
        elif op == 'pop':
            if self.loaded is None:
                if not self.pushed:
                    raise AnalysisError('%s: pops below its frame' % self.f.key)
                self.regs[a[0]] = self.pushed.pop()
            else:
                self.regs[a[0]] = ('slot', self.pops)
                self.pops += 1
        elif op == 'mov' and len(a) == 2:
            d, s = self.addr(a[0]), self.addr(a[1])
            if d and a[1] == 'rsp':
                if self.regs.get(d[0]) != ('init', 'rdi'):
                    self.other.append(('stack pointer stored through a register that is not the fiber', l))
                self.saved[d[1]] = (list(self.pushed), self.loaded)
            elif s and a[0] == 'rsp':
                if self.regs.get(s[0]) != ('init', 'rdi'):
                    self.other.append(('stack pointer loaded through a register that is not the fiber', l))
                self.loaded, self.pops = s[1], 0
            elif s and s[0] == 'rsp':
                self.regs[a[0]] = ('stk', s[1] + 8 * (0 if self.loaded is not None else -len(self.pushed)) + 8 * self.pops)
            elif s:
                self.regs[a[0]] = ('mem', self.regs.get(s[0]), s[1])
            elif d:
                self.other.append(('store', l))
            elif a[0] in self.regs and a[1] in self.regs:
                self.regs[a[0]] = self.regs[a[1]]
            else:
                raise AnalysisError('%s: instruction not understood: %s' % (self.f.key, l))
        elif op == 'ret':
            self.ret = True
        elif op in ('nop', 'endbr64'):
            pass
        elif op == 'lea' and a[0] in self.regs:
            self.regs[a[0]] = ('lea', l)
        elif op == 'xor' and len(a) == 2 and a[0] == a[1] and a[0] in self.regs:
            self.regs[a[0]] = ('zero',)
        else:
            raise AnalysisError('%s: instruction not understood: %s' % (self.f.key, l))

def field_offsets(ctx, name):
    p = ctx.p
    its = [i for i in p.items.get(name, []) if i.kind == 'struct']
    if len(its) != 1:
        raise AnalysisError('no single struct %s' % name)
    it = its[0]
    src = open(it.file).read().split('\n')
    attrs, n = [], it.line - 1
    while n >= 0 and (n == it.line - 1 or re.match(r'\s*(#\[|//)', src[n])):
        attrs.append(src[n])
        n -= 1
    reprc = any(re.search(r'repr\((?:C\b|transparent)', x) for x in attrs)
    off, out = 0, {}
    for i, (n, t) in enumerate(it.fields):
        sz = SIZES.get(t)
        if sz is None:
            e = [x for x in p.items.get(t, []) if x.kind == 'enum']
            if e and all(not v for _, v in e[0].variants):
                sz = 1
            else:
                sz = None
        al = sz or 8
        if off is not None:
            off = (off + al - 1) // al * al
        out[n] = off
        off = None if sz is None or off is None else off + sz
    return out, reprc, it

def machine(ctx):
    p = ctx.p
    sims = {}
    for f in p.fns:
        if f.crate != 'ruruby':
            continue
        l = template(f)
        if l is not None:
            sims[f.key] = Sim(f, l)
    sw = {k: s for k, s in sims.items() if s.loaded is not None}
    stubs = {k: s for k, s in sims.items() if s.loaded is None}
    ctx.seen('naked functions executed', len(sims))
    ctx.floor('naked functions executed', 3)
    if not sw:
        raise AnalysisError('no context-switch function found')
    offs, reprc, it = field_offsets(ctx, 'FiberContext')
    if reprc:
        ctx.ok('layout', 'FiberContext')
    else:
        ctx.bad('layout', 'FiberContext repr', 'FiberContext is addressed by offset from assembly but its field order is not fixed (no repr(C))', '%s:%d' % (it.file, it.line))
    byoff = {o: n for n, o in offs.items() if o is not None}
    # each switch: one save, one load, different fields
    frames = {}
    for k, s in sorted(sw.items()):
        loc = p.by_key[k].loc()
        for why, l in s.other:
            ctx.bad('switch', '%s %s' % (k, why), '%s: %s (%s)' % (k, why, l), loc)
        if len(s.saved) != 1 or any(ld is not None for _, ld in s.saved.values()):
            ctx.bad('switch', k + ' save', '%s: the stack pointer of the side being left is not saved exactly once before switching' % k, loc)
            continue
        (so, (content, _)), = s.saved.items()
        if so not in byoff or s.loaded not in byoff or so == s.loaded:
            ctx.bad('switch', k + ' slot', '%s: saves the stack pointer at offset %d and loads it from %d, which are not two stack-pointer fields of FiberContext' % (k, so, s.loaded), loc)
            continue
        frames[k] = (byoff[so], byoff[s.loaded], list(reversed(content)), s)
        ctx.ok('switch', '%s saves %s, loads %s' % (k, byoff[so], byoff[s.loaded]))
    for k, (sv, ld, content, s) in sorted(frames.items()):
        loc = p.by_key[k].loc()
        missing = [r for r in CALLEE if ('init', r) not in content]
        for r in missing:
            ctx.bad('register', '%s save %s' % (k, r), '%s: callee-saved register %s is not saved' % (k, r), loc)
        if s.regs['rdi'] != ('init', 'rdi'):
            ctx.bad('register', k + ' rdi', '%s: the fiber pointer (rdi) is not passed on to the side being entered' % k, loc)
        # every frame this one can meet
        for k2, (sv2, ld2, content2, s2) in sorted(frames.items()):
            if sv2 != ld:
                continue
            if s.pops != len(content2):
                ctx.bad('register', '%s/%s size' % (k, k2), '%s pops %d registers from the frame %s left, which holds %d' % (k, s.pops, k2, len(content2)), loc)
                continue
            for r in CALLEE:
                v = s.regs[r]
                if v[0] != 'slot' or content2[v[1]] != ('init', r):
                    ctx.bad('register', '%s/%s %s' % (k, k2, r), '%s does not give %s back the value it had when %s saved it' % (k, r, k2), loc)
                else:
                    ctx.ok('register', '%s/%s %s' % (k, k2, r))
        if not any(sv2 == ld for sv2, _, _, _ in frames.values()):
            ctx.bad('switch', k + ' partner', '%s loads a stack pointer from %s that no switch saves' % (k, ld), loc)
        if not any(ld2 == sv for _, ld2, _, _ in frames.values()):
            ctx.bad('switch', k + ' partner', '%s saves the stack pointer in %s, from where no switch loads it' % (k, sv), loc)
    return sims, frames, stubs

# ---- the hand-built first frame ------------------------------------------------------------------------------------------
def first_frame(ctx, sims, frames, stubs):
    """evaluates the function that writes code addresses to a new stack"""
    p = ctx.p
    cands = []
    for f in p.fns:
        if f.crate != 'ruruby':
            continue
        fns = set()
        for b, i, s in f.stmts():
            if s.kind == 'assign' and s.rv.kind == 'cast' and 'ReifyFnPointer' in s.rv.a[0] and 'extern "C"' in s.rv.a[1]:
                for g in p.resolve(s.rv.ops[0].path or s.rv.ops[0].text, f.crate):
                    fns.add(g.key)
        if len(fns) >= 2:
            cands.append(f)
    if len(cands) != 1:
        raise AnalysisError('%d functions build a first frame' % len(cands))
    f = cands[0]
    env, mem = {}, {}
    for i, a in enumerate(f.args):
        env[a] = ('arg', i)
    def val(o):
        if o.kind == 'const':
            v = const_value(p, o, f.crate)
            if v is not None:
                return v
            g = p.resolve(o.path or o.text, f.crate)
            return ('fn', g[0].key) if len(g) == 1 else None
        if not o.place.proj:
            return env.get(o.place.local)
        v = env.get(o.place.local)
        if isinstance(v, tuple) and v[0] == 'chk' and len(o.place.proj) == 1:
            return v[1] if o.place.proj[0][1] == 0 else False
        if isinstance(v, tuple) and v[0] == 'arg' and [x for x in o.place.proj if x != '*']:
            return ('p', 0)
        return None
    b, n = 0, 0
    while True:
        n += 1
        if n > 300:
            raise AnalysisError('%s: not straight-line' % f.key)
        blk = f.blocks[b]
        for s in blk.stmts:
            if s.kind != 'assign':
                continue
            rv = s.rv
            v = None
            if rv.kind in ('use', 'cast'):
                v = val(rv.ops[0])
            elif rv.kind == 'bin':
                x, y = val(rv.ops[0]), val(rv.ops[1])
                if isinstance(x, int) and isinstance(y, int):
                    r = {'Add': x + y, 'Sub': x - y, 'Mul': x * y}.get(re.sub('Checked|WithOverflow|Unchecked', '', rv.a))
                    v = ('chk', r) if re.search('Checked|WithOverflow', rv.a) else r
            elif rv.kind in ('ref', 'addr'):
                v = env.get(rv.ops[0].place.local) if not rv.ops[0].place.proj else None
            if not s.place.proj:
                env[s.place.local] = v
            elif list(s.place.proj) == ['*'] and isinstance(env.get(s.place.local), tuple) and env[s.place.local][0] == 'p':
                mem[env[s.place.local][1]] = v
        t = blk.term
        if t.kind == 'return':
            break
        if t.kind == 'call':
            m = re.search(r'<impl \*(?:mut|const) (\w+)>::(\w+)$', t.func or '')
            v = None
            if m and m.group(2) in ('offset', 'add', 'sub', 'byte_add', 'byte_sub', 'byte_offset', 'wrapping_add', 'wrapping_sub', 'wrapping_offset'):
                x, y = val(t.args[0]), val(t.args[1])
                sc = 1 if m.group(2).startswith('byte') else SIZES.get(m.group(1))
                if isinstance(x, tuple) and x[0] == 'p' and isinstance(y, int) and sc:
                    v = ('p', x[1] + (-y if 'sub' in m.group(2) else y) * sc)
            elif (m and m.group(2) in ('write', 'write_unaligned', 'write_volatile')) or re.search(r'ptr::write(_\w+)?(::<.*>)?$', t.func or ''):
                x = val(t.args[0])
                if isinstance(x, tuple) and x[0] == 'p':
                    mem[x[1]] = val(t.args[1])
                else:
                    raise AnalysisError('%s: writes to an address that is not understood' % f.key)
            elif m and m.group(2) in ('cast', 'cast_mut', 'cast_const'):
                v = val(t.args[0])
            if not t.dest.proj:
                env[t.dest.local] = v
            b = t.succ[0]
            continue
        if len(t.succ) == 1:
            b = t.succ[0]
            continue
        raise AnalysisError('%s: not straight-line' % f.key)
    sp = env.get(0)
    loc = f.loc()
    if not (isinstance(sp, tuple) and sp[0] == 'p'):
        raise AnalysisError('%s: cannot evaluate the initial stack pointer' % f.key)
    sp = sp[1]
    enters = {k: v for k, v in frames.items() if any(v2[1] == v[0] for v2 in frames.values())}
    # the field that receives the initial stack pointer decides which switches can start a fiber
    fld = None
    for g in p.fns:
        for b, t in g.calls():
            if any(h.key == f.key for h in p.resolve(t.func, g.crate)):
                for bb in g.blocks:
                    for s in g.blocks[bb].stmts:
                        if s.kind == 'assign' and s.place.proj and s.rv.kind == 'use' and s.rv.ops[0].place is not None and s.rv.ops[0].place.local == t.dest.local:
                            fld = s.place
                if t.dest.proj:
                    fld = t.dest
                if fld is not None:
                    names = [n for n, _ in [i for i in p.items['FiberContext'] if i.kind == 'struct'][0].fields]
                    fld = names[[x for x in fld.proj if isinstance(x, tuple) and x[0] == 'f'][-1][1]]
    if fld is None:
        raise AnalysisError('the initial stack pointer is not stored')
    starters = [k for k, v in frames.items() if v[1] == fld]
    if not starters:
        ctx.bad('first frame', 'unused', 'no switch loads the stack pointer from `%s`, where that of a new fiber is stored' % fld, loc)
        return None
    for k in starters:
        np = frames[k][3].pops
        e = mem.get(sp + 8 * np)
        if not (isinstance(e, tuple) and e[0] == 'fn'):
            ctx.bad('first frame', k + ' entry', 'after popping %d registers %s would return to an address that is not that of a function: the first frame of a fiber has another layout' % (np, k), loc)
            continue
        ctx.ok('first frame', '%s enters %s' % (k, e[1]))
    np = frames[starters[0]][3].pops
    at = sp + 8 * np
    entry = mem.get(at)
    if not (isinstance(entry, tuple) and entry[0] == 'fn'):
        return None
    if (at + 8) % 16 != 8:
        ctx.bad('first frame', 'alignment', 'the fiber is entered with a misaligned stack (entry slot at offset %d)' % at, loc)
    # what happens when the entry function returns
    at += 8
    cur = mem.get(at)
    hops = []
    rdi = None
    for _ in range(4):
        if not (isinstance(cur, tuple) and cur[0] == 'fn'):
            ctx.bad('first frame', 'exit', 'the code that ends a fiber returns to an address that is not that of a function', loc)
            return entry[1], None
        hops.append(cur[1])
        if cur[1] in stubs:
            s = stubs[cur[1]]
            v = s.regs['rdi']
            if v[0] == 'stk':
                rdi = mem.get(at + 8 + v[1])
            at += 8 * (1 + s.pops)
            cur = mem.get(at)
            continue
        break
    end = p.by_key[hops[-1]]
    if end.args:
        if rdi is None or rdi != ('arg', [i for i, a in enumerate(f.args) if 'FiberContext' in f.types.get(a, '')][0]):
            ctx.bad('first frame', 'exit argument', '%s is reached with something other than the fiber as its argument' % end.key, loc)
        else:
            ctx.ok('first frame', 'exit argument')
    if (at + 8) % 16 != 8:
        ctx.bad('first frame', 'exit alignment', '%s is entered with a misaligned stack' % end.key, loc)
    ctx.ok('first frame', 'exit through ' + ' -> '.join(hops))
    return entry[1], end.key, f.key, fld

# ---- states --------------------------------------------------------------------------------------------------------------
class States(Client):
    """ts: (possible values of the state field at entry of the path, possible now, frame built, result stored, values pushed)"""
    enums = frozenset(['FiberState'])
    params = True

    def __init__(self, ctx, enters, leaves, build, entry, end):
        self.ctx, self.p = ctx, ctx.p
        it = [i for i in self.p.items['FiberContext'] if i.kind == 'struct'][0]
        self.fi = [i for i, (n, t) in enumerate(it.fields) if t == 'FiberState']
        if len(self.fi) != 1:
            raise AnalysisError('FiberContext has %d state fields' % len(self.fi))
        self.fi = self.fi[0]
        self.vs = [n for n, _ in [i for i in self.p.items['FiberState'] if i.kind == 'enum'][0].variants]
        self.ALL = frozenset(range(len(self.vs)))
        self.enters, self.leaves, self.build, self.entry, self.end = enters, leaves, build, entry, end
        self.entered, self.left, self.marks = [], [], []
        gl = [i for i in self.p.items.get('Globals', []) if i.kind == 'struct'][0]
        self.res = [i for i, (n, t) in enumerate(gl.fields) if re.search(r'VMResult$|Result<Value', t)]
        if len(self.res) != 1:
            raise AnalysisError('Globals has %d result fields' % len(self.res))
        self.res = self.res[0]
        base = set(enters) | set(leaves) | {build}
        self.callers = {}
        for f in self.p.fns:
            for b, t in f.calls():
                for g in self.p.callees(f, t):
                    self.callers.setdefault(g.key, set()).add(f.key)
        for f in self.p.fns:
            for b, i, s in f.stmts():
                if s.kind == 'assign' and self.isstate(f, s.place):
                    base.add(f.key)
        self.direct = base - set(enters) - set(leaves)
        self.rel = set()
        # helpers between a switch and the function that is called from outside
        for k in list(base):
            for c in self.callers.get(k, ()):
                self.rel.add(c)
        self.rel |= self.direct
        for f in self.p.fns:
            if any(re.search(r'\bFiber(Context|Handle)$', f.types.get(a) or '') for a in f.args) and f.key not in enters and f.key not in leaves \
                    and not re.match(r'<.* as .*>::', f.key) and '::{closure' not in f.key and any(True for _ in f.calls()) | any(s2.kind == 'assign' for _, _, s2 in f.stmts()):
                self.rel.add(f.key)

    def isstate(self, f, pl):
        pr = [x for x in pl.proj if x != '*']
        return bool(pr) and pr[-1][0] == 'f' and pr[-1][1] == self.fi and str(pr[-1][2]).endswith('FiberState')

    def relevant(self, g):
        return g.key in self.rel

    def entry_env(self, f, ts):
        return ts[-1]

    def value(self, f, b, s, ts, env):
        if s.kind != 'assign' or s.place.proj:
            return None
        if s.rv.kind == 'discr' and (self.isstate(f, s.rv.ops[0].place)):
            return ('fs',)
        if s.rv.kind == 'discr':
            r = env.get(s.rv.ops[0].place.local)
            if r == ('fsref',):
                return ('fs',)
        if s.rv.kind in ('ref', 'use') and s.rv.ops[0].place is not None and self.isstate(f, s.rv.ops[0].place):
            return ('fsref',)
        if s.rv.kind in ('ref', 'use') and s.rv.ops[0].place is not None and env.get(s.rv.ops[0].place.local) == ('fsref',) and all(x == '*' for x in s.rv.ops[0].place.proj):
            return ('fsref',)
        return None

    def stmt(self, f, b, i, s, ts, env):
        if s.kind != 'assign':
            return ts
        orig, cur, built, res, push = ts
        if self.isstate(f, s.place):
            v = None
            if s.rv.kind == 'use' and s.rv.ops[0].place is not None and not s.rv.ops[0].place.proj:
                v = env.get(s.rv.ops[0].place.local)
            elif s.rv.kind == 'agg':
                v = self.engine.variant_of(s.rv)
            if not isinstance(v, int):
                raise AnalysisError('%s: state of a fiber set to an unknown value' % f.key)
            self.sets.add((f.key, self.vs[v]))
            return (orig, frozenset([v]), built, res, push)
        pr = [x for x in s.place.proj if x != '*']
        if pr and pr[-1][0] == 'f' and pr[-1][1] == self.res and re.search(r'Globals', strip_ref(f.types.get(s.place.local) or '') + str([x[2] for x in pr[:-1]])):
            return (orig, cur, built, True, push)
        return ts

    def variant_arg(self, f, o, depth=0):
        """variant a promoted or local reference argument stands for"""
        if depth > 5:
            return None
        if o.kind == 'const':
            m = re.search(r'promoted\[(\d+)\]', '%s %s' % (o.text, o.path))
            g = self.p.by_key.get('%s#promoted[%s]' % (f.key, m.group(1))) if m else None
            for _, _, s in (g.stmts() if g is not None else ()):
                if s.kind == 'assign' and s.rv.kind == 'agg':
                    return self.engine.variant_of(s.rv)
            return None
        if o.place is None or any(x != '*' for x in o.place.proj):
            return None
        ds = defs(f).get(o.place.local, [])
        if len(ds) != 1:
            return None
        rv = ds[0][2]
        if getattr(rv, 'kind', '') == 'agg':
            return self.engine.variant_of(rv)
        if getattr(rv, 'kind', '') in ('use', 'ref') and rv.ops:
            return self.variant_arg(f, rv.ops[0], depth + 1)
        return None

    def switch_tag(self, f, b, tag, kk, vals, ts, env):
        if tag != ('fs',):
            return ts
        orig, cur, built, res, push = ts
        al = frozenset([kk]) if kk is not None else self.ALL - set(vals)
        c = cur & al
        if not c:
            return None
        return (orig & al if cur == orig else orig, c, built, res, push)

    def enter(self, f, b, t, g, ts, env):
        tags = []
        for i, a in enumerate(t.args):
            v = self.engine._argtag(t, i, env)
            if v is None and a.place is None and (g.types.get(i + 1) or '').endswith('FiberState'):
                m = re.search(r'(\w+)$', '%s' % (a.path or a.text or ''))
                v = self.vs.index(m.group(1)) if m and m.group(1) in self.vs else None
            if v is not None and i + 1 in g.args:
                tags.append((i + 1, v))
        return ts + (tuple(tags),)

    def call(self, f, b, t, ts, env):
        orig, cur, built, res, push = ts
        fn = t.func or ''
        gs = self.p.resolve(fn, f.crate) if fn else []
        ks = {g.key for g in gs}
        if re.search(r'FiberState as .*PartialEq>::(eq|ne)$', fn):
            sides = [a for a in t.args if a.place is not None and env.get(a.place.local) == ('fsref',)]
            other = [self.variant_arg(f, a) for a in t.args if a not in sides]
            if len(sides) == 1 and len(other) == 1 and other[0] is not None:
                v = other[0]
                out = []
                for al, r in ((frozenset([v]), 1), (self.ALL - {v}, 0)):
                    c = cur & al
                    if c:
                        out.append(((orig & al if cur == orig else orig, c, built, res, push), r if fn.endswith('eq') else 1 - r))
                return out
        if self.build in ks:
            return [((orig, cur, True, res, push), None)]
        if ks & set(self.enters):
            self.entered.append((f, b, t, ts))
            return [((self.ALL, self.ALL, None, False, 0), None)]
        if ks & set(self.leaves):
            self.left.append((f, b, t, ts))
            return [((self.ALL, self.ALL, False, False, -100), None)]
        if re.search(r'as (?:[\w:]+::)?GC<.*>>::mark$', fn) and re.search(r'\bVM(Ref)?\b|Ref<(?:[\w:]+::)?VM>', re.split(r' as ', fn)[0]):
            self.marks.append((f, b, t, ts))
        if re.search(r'::stack_push$', fn):
            return [((orig, cur, built, res, push + 1 if abs(push) < 5 else push), None)]
        if re.search(r'::stack_pop$', fn):
            if push <= -100:
                return [((orig, cur, built, res, max(push - 1, -105)), None)]
            return [((orig, cur, built, res, push - 1 if abs(push) < 5 else push), None)]
        return None

    def leave(self, f, b, t, g, ts, tin, tout, tag, env):
        return [(tout, tag)]

def release(ctx, cl, dead, entry, end):
    """the stack block and the machine of a fiber are given back by its destructor, on every path, and by nobody else; a fiber
    that has ended does not have its machine traced any more"""
    p = ctx.p
    drops = [f for f in p.fns if re.search(r'FiberContext as (?:[\w:]+::)?Drop>::drop$', f.key)]
    if len(drops) != 1:
        ctx.bad('release', 'destructor', 'a fiber has no destructor: its stack is never given back', '')
        return
    drop = drops[0]
    fields = [i for i in p.items['FiberContext'] if i.kind == 'struct'][0].fields
    def takes(f, ty):
        return f.args and re.fullmatch(r'(?:&(?:mut )?)*(?:[\w:]+::)?%s' % ty, f.types.get(1, '') or '') is not None
    def gives_back(f):
        for g in [f] + [h for h in p.fns if h.key.startswith(f.key + '::{closure')]:
            for b, t in g.calls():
                if re.search(r'Vec::<(?:[\w:]+::)?Stack>::push$|::dealloc$', t.func or ''):
                    return True
        return False
    stackf = [f for f in p.fns if takes(f, 'Stack') and '{closure' not in f.key and gives_back(f)]
    if not stackf:
        raise AnalysisError('no function gives back a fiber stack')
    def free_vm(t):
        return bool(re.search(r'\bVM(Ref)?\b|Ref::<(?:[\w:]+::)?VM>|Ref<(?:[\w:]+::)?VM>', t.func or '')) and (t.func or '').endswith('::free')
    def stack_call(f, t):
        return any(g in stackf for g in p.resolve(t.func, f.crate)) if t.func else False
    for what, test, idem in (('stack', stack_call, True), ('machine', lambda f, t: free_vm(t), False)):
        sites = [(f, b, t) for f in p.fns for b, t in f.calls() if test(f, t)]
        # destructor: direct calls, or through helpers called from it
        reach, todo = set(), [drop]
        while todo:
            f = todo.pop()
            if f.key in reach:
                continue
            reach.add(f.key)
            for b, t in f.calls():
                for g in (p.resolve(t.func, f.crate) if t.func else []):
                    if any(test(g, t2) for _, t2 in g.calls()) and g not in stackf:
                        todo.append(g)
        inside = [x for x in sites if x[0].key in reach]
        def every(f, depth=0):
            """every path through f gives it back exactly once"""
            pend, seen = [(0, 0)], set()
            worst = set()
            while pend:
                b, n = pend.pop()
                if (b, n) in seen or n > 2:
                    continue
                seen.add((b, n))
                t = f.blocks[b].term
                if t.kind == 'return':
                    worst.add(n)
                if t.kind == 'call':
                    if test(f, t):
                        n += 1
                    else:
                        for g in (p.resolve(t.func, f.crate) if t.func else []):
                            if g.key in reach and g.key != f.key and depth < 4:
                                n += max(every(g, depth + 1) or {0})
                for sx in t.succ:
                    if f.blocks[sx].term.kind != 'resume':
                        pend.append((sx, n))
            return worst
        w = every(drop)
        if 0 in w or not inside:
            ctx.bad('release', what + ' kept', 'the destructor of a fiber can end without giving back its %s' % what, drop.loc())
        elif not w <= {1} and not idem:
            ctx.bad('release', what + ' twice', 'the destructor of a fiber can give back its %s twice' % what, drop.loc())
        else:
            ctx.ok('release', what + ' given back by the destructor')
        once = all(idempotent(p, g) for g in stackf) if idem else False
        for f, b, t in sites:
            if f.key in reach or (f in stackf):
                continue
            if what == 'machine' and not fiber_place(f, t):
                continue
            if f.key in (entry, end) or any(f.key == x[0].key for x in cl.left):
                ctx.bad('release', '%s %s running' % (f.key, what), '%s gives back the %s of the fiber it is running on' % (f.key, what), str(t.span))
            elif not once:
                ctx.bad('release', '%s %s again' % (f.key, what), '%s gives back the %s of a fiber that its destructor gives back again' % (f.key, what), str(t.span))
            else:
                ctx.ok('release', '%s also gives back the %s, which is then forgotten' % (f.key, what))
    # tracing
    marks = [f for f in p.fns if re.search(r'FiberContext as (?:[\w:]+::)?GC(?:<.*>)?>::mark$', f.key)]
    if len(marks) != 1:
        raise AnalysisError('FiberContext is traced by %d functions' % len(marks))
    ds = frozenset(dead)
    if ds:
        cl.marks = []
        cl.rel = cl.rel | {marks[0].key}
        Engine(p, cl).run([(marks[0], (ds, ds, False, False, 0, ()))])
        if cl.marks:
            f, b, t, ts = cl.marks[0]
            ctx.bad('release', 'traced', '%s traces the frames of a fiber that has ended' % f.key, str(t.span))
        else:
            ctx.ok('release', 'frames of an ended fiber are not traced')

def fiber_place(f, t):
    """is the freed machine the one of a fiber?"""
    a = t.args[0]
    seen = set()
    while a is not None and a.place is not None:
        if any(isinstance(x, tuple) and x[0] == 'f' and re.search(r'VM', str(x[2])) for x in a.place.proj):
            return 'FiberContext' in (f.types.get(a.place.local) or '')
        l = a.place.local
        if l in seen:
            return False
        seen.add(l)
        if 'FiberContext' in (f.types.get(l) or ''):
            return True
        ds = defs(f).get(l, [])
        if len(ds) != 1:
            return False
        d = ds[0][2]
        ops = getattr(d, 'ops', None) or getattr(d, 'args', None)
        a = ops[0] if ops else None
    return False

def idempotent(p, f):
    """gives back only a block it has, and forgets it"""
    nulls = False
    for b, t in f.calls():
        if re.search(r'ptr::null(_mut)?(::<.*>)?$', t.func or ''):
            nulls = True
    tests = any(re.search(r'::is_null$', t.func or '') for b, t in f.calls())
    return nulls and tests

def run(ctx):
    p = ctx.p
    sims, frames, stubs = machine(ctx)
    r = first_frame(ctx, sims, frames, stubs)
    if r is None or r[1] is None:
        if not ctx.violations:
            raise AnalysisError('first frame not understood')
        return
    entry, end, build, fld = r
    enters = {k for k, v in frames.items() if v[1] == fld}
    leaves = {k for k, v in frames.items() if v[0] == fld}
    cl = States(ctx, enters, leaves, build, entry, end)
    cl.sets = set()
    cl.popped = set()
    e = Engine(p, cl)
    roots = []
    for k in sorted(cl.rel | {entry, end}):
        if not (cl.callers.get(k, set()) & cl.rel) or k in (entry, end):
            roots.append((p.by_key[k], (cl.ALL, cl.ALL, False, False, 0, ())))
    rets = {}
    def at_return(f, b, ts, env):
        rets.setdefault(f.key, set()).add(ts)
        if f.key in cl.resumers and ts[2] is not None:
            v = env.get(0)
            v = v[1] if isinstance(v, tuple) and v[0] == 'pv' else v
            noent.setdefault(f.key, set()).add((v == 1, ts[1]))
        return ts
    noent = {}
    cl.resumers = {c for k in enters for c in cl.callers.get(k, ())}
    cl.at_return = at_return
    e.run(roots)
    nm = lambda s: '/'.join(cl.vs[i] for i in sorted(s))
    # the state a fiber is left in
    dead, susp = set(), set()
    for f, b, t, ts in cl.left:
        (dead if f.key == end else susp).update(ts[1] if len(ts[1]) < len(cl.ALL) else [])
        if len(ts[1]) != 1:
            ctx.bad('state', '%s leave' % f.key, '%s gives control back without recording the state of the fiber it leaves' % f.key, str(t.span))
        else:
            ctx.ok('state', '%s leaves the fiber %s' % (f.key, nm(ts[1])))
        if f.key != end:
            if ts[3]:
                ctx.ok('transfer', '%s stores the value' % f.key)
            else:
                ctx.bad('transfer', '%s result' % f.key, '%s gives control back without storing the value it yields' % f.key, str(t.span))
    if not any(f.key == end for f, b, t, ts in cl.left):
        ctx.bad('state', end + ' leave', '%s, where a finished fiber ends up, can return instead of giving control back' % end, p.by_key[end].loc())
    if any(True for ts in rets.get(end, ()) if ts[4] > -100):
        ctx.bad('state', end + ' return', '%s can return without giving control back: a finished fiber has nothing to return to' % end, p.by_key[end].loc())
    for ts in rets.get(entry, ()):
        if not ts[3]:
            ctx.bad('transfer', entry + ' result', '%s can end a fiber without storing its result' % entry, p.by_key[entry].loc())
            break
    else:
        ctx.ok('transfer', entry + ' stores the result')
    active = set()
    for f, b, t, ts in cl.entered:
        orig, cur, built, res, push = ts
        loc = str(t.span)
        key = '%s %s' % (f.key, t.func.split('::')[-1])
        if len(cur) != 1:
            ctx.bad('state', key + ' active', '%s enters a fiber without recording that it is running' % f.key, loc)
        active |= cur if len(cur) == 1 else set()
        if orig & dead:
            ctx.bad('state', key + ' dead', '%s can enter a fiber that has ended' % f.key, loc)
        elif not built and not orig <= susp:
            ctx.bad('state', key + ' not suspended', '%s can switch to a fiber in state %s, which is not suspended' % (f.key, nm(orig - susp)), loc)
        elif built and orig & (susp | active):
            ctx.bad('state', key + ' restart', '%s can build a new first frame for a fiber in state %s' % (f.key, nm(orig & (susp | active))), loc)
        else:
            ctx.ok('state', '%s enters from %s' % (key, nm(orig)))
        if push != 1:
            ctx.bad('transfer', key + ' value', '%s enters the fiber after putting %d values on its operand stack; the other side takes 1' % (f.key, push), loc)
        else:
            ctx.ok('transfer', key + ' passes one value')
    if active & susp:
        ctx.bad('state', 'active and suspended', 'a running fiber cannot be told from a suspended one (both %s): resuming it again restores a stale stack' % nm(active & susp), '')
    if dead & (susp | active):
        ctx.bad('state', 'dead', 'a finished fiber cannot be told from a live one', '')
    for f, b, t, ts in cl.left:
        if f.key == end:
            continue
        pops = {-100 - x[4] for x in rets.get(f.key, ()) if x[4] <= -100}
        if pops and pops != {1}:
            ctx.bad('transfer', f.key + ' value', '%s takes %s values from its operand stack after being resumed; the other side puts 1' % (f.key, sorted(pops)), str(t.span))
        elif pops:
            ctx.ok('transfer', f.key + ' takes one value')
    # a resume that does not enter the fiber raises
    for k, vs in sorted(noent.items()):
        bad = [st for isx, st in vs if not isx]
        if bad:
            ctx.bad('state', k + ' refused', '%s can return an ordinary value without entering the fiber (state %s): resuming such a fiber must raise' % (
                k, nm(frozenset().union(*bad))), p.by_key[k].loc())
        else:
            ctx.ok('state', k + ' raises when it does not enter')
    release(ctx, cl, dead, entry, end)
    # who sets the dead state
    for k, v in sorted(cl.sets):
        if cl.vs.index(v) in dead and k != end:
            ctx.ok('state', '%s also ends fibers' % k)
    ctx.seen('entries', len(cl.entered))
    ctx.seen('switches back', len(cl.left))
    ctx.floor('entries', 2)
    ctx.floor('switches back', 2)
    ctx.assume('x86-64 System V calling convention (the only target built here); the stack block is 16-byte aligned')
    ctx.assume('a fiber is entered only through the functions found to call the switches (they are private to the module)')
