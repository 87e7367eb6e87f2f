"""P22: the value stack never grows beyond its buffer, and frames are only pushed after a check that fails with a Ruby error.

1. Every assignment to the stack pointer of a RubyStack (anywhere in the workspace), and every store through a stack pointer made
   in RubyStack's own methods, is shown to stay within the allocated buffer by abstract interpretation with linear forms: the
   facts come from conditions whose other branch diverges or returns (assertions that are compiled out do not count).
2. Every fallible function that pushes a frame, or pushes a number of values that is not constant, does so only after a
   successful call of a check that returns an error when there is no room for that frame."""
import re
from program import AnalysisError, strip_ref, drop_generics
from flow import const_value, dominates, expr
from linear import Interp, Lin, State, entails, positive

TRUSTED_PTR = {'get_prev_sp', 'as_sp'}

class Stack(Interp):
    def __init__(self, ctx, size, sp, buf, vmstack, header):
        Interp.__init__(self, ctx.p)
        self.ctx, self.size, self.sp, self.buf, self.vmstack, self.header = ctx, size, sp, buf, vmstack, header
        self.obs = {}       # (function, what, block) -> (ok, where, text)

    def root(self, f):
        ty = strip_ref(f.types.get(f.args[0], '')) if f.args else ''
        self.top = f
        self.own = drop_generics(ty).split('::')[-1] == 'RubyStack'
        self.S = ('A', 1) if self.own else ('A', 1, self.vmstack)
        self.spc = self.S + (self.sp, 0)
        st = State()
        for n, a in enumerate(f.args):
            t = f.types.get(a, '')
            if t.startswith('&') or n == 0 and strip_ref(t) != t:
                st.env[('L', f.key, a)] = ('ref', ('A', n + 1))
            elif drop_generics(t).split('::')[-1] == 'StackPtr':
                st.env[('L', f.key, a, 0)] = Lin(0, {('neg', 'param', n + 1): 1})
            else:
                st.env[('L', f.key, a)] = Lin(0, {('v', 'param', n + 1): 1})
        self.setsp(st, ('depth', 'entry'))
        return st

    def setsp(self, st, k):
        self.forget(k, st)
        d = Lin(0, {k: 1})
        st.env[self.spc] = d
        st.facts |= {Lin(self.size) - d}

    def initial(self, c, ty):
        return None

    def inline(self, f, g, t):
        ty = drop_generics(strip_ref(g.types.get(g.args[0], ''))).split('::')[-1] if g.args else ''
        if ty == 'RubyStack' or g.key.startswith('StackPtr::') or '<StackPtr as' in g.key:
            return 'IndexMut' not in g.key and 'Index<' not in g.key
        if ty == 'VM' and g.args and len(g.blocks) <= 6 and not g.types[g.args[0]].startswith('&mut'):
            return True
        return False

    def call(self, fr, f, b, t, args, st):
        fn = t.func or ''
        nm = drop_generics(fn).split('::')[-1]
        c = args[0][1] if args and isinstance(args[0], tuple) and args[0][0] == 'ref' else None
        # address of the buffer
        if c is not None and c[:len(self.S) + 1] == self.S + (self.buf,) and re.search(r'::as_(mut_)?ptr$', fn):
            self.assign(fr, b, self.cell(fr, t.dest, st), Lin(0), st)
            return [(st, Lin(0))]
        gs = self.p.callees(f, t)
        if len(gs) == 1 and drop_generics(gs[0].ret or '').split('::')[-1] == 'StackPtr' and gs[0].key.split('::')[-1] in TRUSTED_PTR and \
                not gs[0].key.startswith('RubyStack'):
            k = ('frameptr', f.key, b)
            self.forget(k, st)
            v = Lin(0, {k: 1})
            st.facts |= {Lin(self.size - (self.header if nm == 'as_sp' else 0)) - v}
            d = self.cell(fr, t.dest, st)
            self.assign(fr, b, d, None, st, parts={(0,): v})
            return [(st, 'keep')]
        # stores through a stack pointer
        if self.own and len(args) == 2 and 'StackPtr' in fn and 'IndexMut' in fn:
            v = self.read(c + (0,), None, st) if c is not None else None
            hi = None
            e = st.env.get(self.cell(fr, t.args[1].place, st) + (1,)) if t.args[1].place is not None else None
            if isinstance(v, Lin):
                if isinstance(e, Lin):
                    hi = v + e
                elif isinstance(args[1], Lin) and 'Range' not in fn:
                    hi = v + args[1] + Lin(1)
            self.oblige(f, b, 'store', hi, st, t.span)
            self.assign(fr, b, self.cell(fr, t.dest, st), ('ref', ('at', f.key, b)), st)
            return [(st, 'keep')]
        if self.own and re.search(r'(intrinsics|ptr)::(copy|copy_nonoverlapping|write_bytes)$|ptr::write$', drop_generics(fn)):
            w = nm == 'write' or nm == 'write_bytes'
            dst, n = args[0 if w else 1], (Lin(1) if nm == 'write' else args[2])
            if not (self.top.args and self.top.types[self.top.args[0]].startswith('&')):
                return None
            self.oblige(f, b, 'store', dst + n if isinstance(dst, Lin) and isinstance(n, Lin) else None, st, t.span)
        return None

    def assign(self, fr, b, c, val, st, span=None, parts=None):
        if val == 'keep':
            return
        Interp.assign(self, fr, b, c, val, st, span, parts)

    def store(self, fr, b, c, v, st, span):
        if c == self.spc or c == self.spc[:-1]:
            f = self.p.by_key[fr[2] if isinstance(fr, tuple) else fr]
            if c == self.spc:
                self.oblige(f, b, 'sp', v if isinstance(v, Lin) else None, st, span)
            else:
                w = st.env.get(self.spc)
                if w is None:
                    self.oblige(f, b, 'sp', None, st, span)
            if not isinstance(st.env.get(self.spc), Lin):
                self.setsp(st, ('depth', fr, b))

    def clobber(self, fr, f, b, t, cells, st):
        if self.spc not in st.env:
            self.setsp(st, ('depth', fr, b))

    def join(self, a, n, tag, back):
        j = Interp.join(self, a, n, tag, back)
        d = j.env.get(self.spc)
        if not isinstance(d, Lin):
            self.setsp(j, ('depth',) + tag)
            d = j.env[self.spc]
        if not entails(j.facts, Lin(self.size) - d):
            j.facts |= {Lin(self.size) - d}      # proved at each assignment
        return j

    def oblige(self, f, b, what, hi, st, span):
        facts = st.facts
        if what == 'store':     # positions handed to a stack method lie on the stack
            facts = facts | {Lin(0, {('depth', 'entry'): 1, k: -1}) for k in hi.t if k[:2] == ('neg', 'param')} if hi is not None else facts
        ok = hi is not None and entails(facts, Lin(self.size) - hi, 4)
        k = (self.top.key, f.key, what, b)
        old = self.obs.get(k)
        # a loop is visited several times; the last visit has the weakest state
        self.obs[k] = (ok if old is None else old[0] and ok or ok, f.loc(span), hi)

def stack_struct(ctx):
    p = ctx.p
    its = [i for i in p.items.get('RubyStack', []) if i.kind == 'struct']
    vm = [i for i in p.items.get('VM', []) if i.kind == 'struct']
    if len(its) != 1 or len(vm) != 1:
        raise AnalysisError('anchor not found: struct RubyStack / VM')
    sp = [n for n, x in enumerate(its[0].fields) if drop_generics(x[1]).split('::')[-1] == 'StackPtr']
    buf = [n for n, x in enumerate(its[0].fields) if 'Box<[' in x[1].replace(' ', '')]
    vs = [n for n, x in enumerate(vm[0].fields) if drop_generics(x[1]).split('::')[-1] == 'RubyStack']
    if len(sp) != 1 or len(buf) != 1 or len(vs) != 1:
        raise AnalysisError('struct RubyStack: fields not understood')
    return sp[0], buf[0], vs[0]

def sp_writers(p, sp):
    """functions that assign a RubyStack's stack pointer or take it mutably"""
    out = {}
    for f in p.fns:
        for b in f.blocks:
            if f.blocks[b].cleanup:
                continue
            for s in f.blocks[b].stmts:
                if s.kind != 'assign':
                    continue
                for pl, w in [(s.place, True)] + [(o.place, s.rv.a == 'mut') for o in s.rv.ops if s.rv.kind in ('ref', 'addr') and o.place is not None]:
                    if w and touches_sp(f, pl, sp):
                        out.setdefault(f.key, (f, []))[1].append(s)
    return out

def touches_sp(f, pl, sp):
    """place inside the stack pointer field of some RubyStack"""
    ty = f.types.get(pl.local, '')
    for n, pr in enumerate(pl.proj):
        if pr == '*':
            ty = strip_ref(ty) if ty else None
        elif pr[0] == 'f':
            if ty and drop_generics(strip_ref(ty)).split('::')[-1] == 'RubyStack' and pr[1] == sp:
                return True
            ty = pr[2]
        else:
            ty = None
    return False

def only_lowered(f, s):
    """mutable reference to the stack pointer that is only used to subtract an unsigned number"""
    if s.rv.kind != 'ref' or s.place.proj:
        return False
    l, n = s.place.local, 0
    for b, t in f.calls():
        for a in t.args:
            if a.place is not None and a.place.local == l:
                if a.place.proj or not re.search(r'StackPtr as std::ops::SubAssign<usize>>::sub_assign$', t.func or ''):
                    return False
                n += 1
    for b, i, x in f.stmts():
        if x.kind == 'assign' and x is not s and (x.place.local == l or any(o.place is not None and o.place.local == l for o in x.rv.ops)):
            return False
    return n == 1

def fold(e):
    if e[0] == 'int':
        return e[1]
    if e[0] == 'proj':
        return fold(e[1])
    if e[0] == 'bin':
        a, b = fold(e[2]), fold(e[3])
        if a is None or b is None:
            return None
        return {'Add': a + b, 'Sub': a - b, 'Mul': a * b, 'Div': a // b if b else None, 'Shl': a << min(b, 64), 'Shr': a >> min(b, 64)}.get(e[1])
    return None

def run(ctx):
    p = ctx.p
    sp, buf, vs = stack_struct(ctx)
    # size: what is allocated where a stack is made
    sizes = {}
    for f in p.fns:
        for b, i, s in f.stmts():
            if s.kind == 'assign' and s.rv.kind == 'agg' and drop_generics(str(s.rv.text[0] if isinstance(s.rv.text, tuple) else s.rv.text)).split('::')[-1] == 'RubyStack':
                if '<RubyStack as std::clone::Clone>' in f.key or f.key.endswith('::clone'):
                    continue
                n = None
                for b2, t in f.calls():
                    if re.search(r'Box::<\[.*\]>::new_uninit_slice$|vec::from_elem|Vec::<.*>::with_capacity$|Box::<.*>::new_(uninit|zeroed)_slice$', t.func or ''):
                        n = fold(expr(p, f, t.args[-1]))
                if not isinstance(n, int):
                    raise AnalysisError('%s: size of the new stack not understood' % f.key)
                sizes[f.key] = n
    if not sizes or len(set(sizes.values())) != 1:
        raise AnalysisError('no single stack size: %s' % sizes)
    size = list(sizes.values())[0]
    for k in sizes:
        ctx.ok('buffer allocations', k)
    for f in p.fns:
        if f.key.startswith('<VM as') or '#promoted' in f.key:
            continue
        for b, t in f.calls():
            if re.search(r'RubyStack as std::clone::Clone>::clone', t.func or ''):
                ctx.bad('stack copies', f.key, 'copies the value stack: the copy points into the original buffer', f.loc(t.span))
    ctx.cc = None
    heads = header_len(ctx)
    writers = sp_writers(p, sp)
    an = Stack(ctx, size, sp, buf, vs, heads)
    for k, (f, ss) in sorted(writers.items()):
        if k in sizes:
            continue
        if '#promoted' in k or k.endswith('::clone'):
            continue
        up = [x for x in ss if not only_lowered(f, x)]
        for x in ss:
            if x not in up:
                ctx.ok('stack pointer assignments', '%s lowers %s' % (k, f.loc(x.span)))
        if not up:
            continue
        ty = drop_generics(strip_ref(f.types.get(f.args[0], ''))).split('::')[-1] if f.args else ''
        if ty not in ('RubyStack', 'VM'):
            ctx.bad('stack pointer assignments', k, 'assigns the stack pointer of a value stack it does not belong to', f.loc(ss[0].span))
            continue
        st = an.root(f)
        an.run(f, f.key, st)
    for (top, fk, what, b), (ok, where, hi) in sorted(an.obs.items(), key=repr):
        kind = 'stack pointer assignments' if what == 'sp' else 'stores above the stack pointer'
        if ok:
            ctx.ok(kind, '%s %s' % (fk, where))
        else:
            ctx.bad(kind, fk, 'the stack %s up to %s without an enforced check that this is within %d slots' % (
                'pointer is moved' if what == 'sp' else 'is written', 'an unknown position' if hi is None else hi, size), where)
    ctx.seen('functions interpreted', len(an.analysed))
    ctx.floor('stack pointer assignments', 8)
    ctx.floor('functions interpreted', 12)
    frames(ctx, an, size, heads)

def header_len(ctx):
    """number of slots of a Ruby frame's header, from the arrays that are pushed"""
    n = []
    for f in ctx.p.fns:
        m = re.match(r'\[.*Value; (\d+|.*)\]$', f.ret or '')
        if m and f.key.split('::')[-1] in ('control_frame', 'method_env_frame', 'block_env_frame', 'heap_env_frame'):
            for b, i, s in f.stmts():
                if s.kind == 'assign' and s.rv.kind == 'agg' and s.place.local == 0 and s.rv.a == 'array':
                    n.append((f.key, len(s.rv.ops)))
    if not n:
        raise AnalysisError('frame headers not found')
    c = [x for k, x in n if k.endswith('control_frame')]
    e = [x for k, x in n if not k.endswith('control_frame')]
    return max(c) + max(e)

FALL = re.compile(r'RubyError|^(?:.*::)?(VMResult|InvokeResult)$')

class Probe(Stack):
    """interprets a candidate check: what is known about the room left wherever it returns Ok"""
    def __init__(self, *a):
        Stack.__init__(self, *a)
        self.goals = []
    def store(self, fr, b, c, v, st, span): pass
    def oblige(self, *a): pass
    def stmt(self, fr, f, b, i, s, st):
        Stack.stmt(self, fr, f, b, i, s, st)
        if f is self.top and s.kind == 'assign' and s.place.local == 0 and s.rv.kind == 'agg' and 'Ok' in str(s.rv.text):
            room = Lin(self.size) - st.env[self.spc]
            out = set()
            for n in range(1, len(f.args)):
                if entails(st.facts, room - Lin(0, {('v', 'param', n + 1): 1}) - Lin(self.header)):
                    out.add(n)
            if entails(st.facts, room - Lin(self.header)):
                out.add(0)
            self.goals.append(out)

def ok_block(f, b):
    """block reached only when the fallible call ending block b returned Ok"""
    t = f.blocks[b].term
    if not t.succ or t.dest is None or t.dest.proj:
        return None
    l, cur = t.dest.local, t.succ[0]
    for _ in range(6):
        blk = f.blocks[cur]
        d = [s for s in blk.stmts if s.kind == 'assign' and s.rv.kind == 'discr' and (s.rv.ops[0].place.local == l)]
        if blk.term.kind == 'switch' and d and blk.term.op.place is not None and blk.term.op.place.local == d[0].place.local:
            return [tg for v, tg in blk.term.targets if v == 0 or v is None and any(x == 1 for x, _ in blk.term.targets)][0] \
                if any(v == 0 for v, _ in blk.term.targets) or any(v == 1 for v, _ in blk.term.targets) else None
        if blk.term.kind == 'call' and any(a.place is not None and a.place.local == l for a in blk.term.args) and \
                re.search(r'Try>::branch$|::map_err', blk.term.func or ''):
            l, cur = blk.term.dest.local, blk.term.succ[0]
            continue
        mv = [s for s in blk.stmts if s.kind == 'assign' and s.rv.kind == 'use' and s.rv.ops[0].place is not None and s.rv.ops[0].place.local == l]
        if mv:
            l = mv[0].place.local
        if blk.term.kind in ('goto', 'drop', 'false') and blk.term.succ:
            cur = blk.term.succ[0]
            continue
        return None
    return None

def frames(ctx, an, size, heads):
    p = ctx.p
    fall = lambda f: FALL.search(f.ret or '') is not None
    def takes_vm(f):
        return bool(f.args) and drop_generics(strip_ref(f.types.get(f.args[0], ''))).split('::')[-1] == 'VM'
    # checks
    checks = {}
    for f in p.fns:
        if takes_vm(f) and len(f.blocks) <= 20 and re.match(r'(std|core)::result::Result<\(\), ', f.ret or '') and \
                not any(fall(g) and takes_vm(g) for b, t in f.calls() for g in p.callees(f, t)) and \
                any(touches_sp_read(p, g, an.sp) for b, t in f.calls() for g in p.callees(f, t)):
            pr = Probe(ctx, size, an.sp, an.buf, an.vmstack, heads)
            pr.run(f, f.key, pr.root(f))
            if pr.goals:
                g = set.intersection(*pr.goals)
                if g:
                    checks[f.key] = g
    if not checks:
        ctx.bad('checks found', 'check', 'no function makes sure that there is room for a frame header (%d slots) and the requested number of values before returning Ok' % heads, '')
    for k in checks:
        ctx.ok('checks found', k)
    # what grows the stack by how much, directly
    grow = {}
    for f in p.fns:
        if '#promoted' in f.key:
            continue
        for b, t in f.calls():
            for g in p.callees(f, t):
                if drop_generics(strip_ref(g.types.get(g.args[0], ''))).split('::')[-1] != 'RubyStack' if g.args else True:
                    continue
                nm = g.key.split('::')[-1]
                if not an_grows(p, g, an.sp):
                    continue
                kind = None
                ints = [x for x, y in zip(t.args[1:], g.args[1:]) if g.types.get(y) in ('usize', 'u32', 'isize')]
                sl = [x for x, y in zip(t.args[1:], g.args[1:]) if '[' in (g.types.get(y) or '')]
                sps = [x for x, y in zip(t.args[1:], g.args[1:]) if (g.types.get(y) or '').endswith('StackPtr')]
                if sl:
                    n = array_len(f, sl[0])
                    kind = ('const', n) if n is not None else ('var',)
                    if n is not None and n > 1:
                        kind = ('frame', n)
                elif ints:
                    n = const_value(p, ints[-1], f.crate)
                    if n is None and from_instruction(f, ints[-1]):
                        n = 1
                    kind = ('const', n) if isinstance(n, int) else ('var',)
                elif sps and not any(g.types.get(y, '').endswith('Value') for y in g.args[1:]):
                    kind = ('var',)
                else:
                    kind = ('const', 1)
                grow.setdefault(f.key, []).append((b, t, kind))
    # functions that cannot fail themselves pass the duty on to their callers
    need = {}
    def infallible(k):
        return not fall(p.by_key[k])
    work = [k for k, v in grow.items() if infallible(k) and any(x[2][0] != 'const' for x in v) and takes_vm(p.by_key[k])]
    for k in work:
        need[k] = 'frame' if any(x[2][0] == 'frame' for x in grow[k]) else 'var'
    callers = {}
    for f in p.fns:
        if '#promoted' in f.key:
            continue
        for b, t in f.calls():
            for g in p.callees(f, t):
                callers.setdefault(g.key, []).append((f, b, t))
    while work:
        k = work.pop()
        for f, b, t in callers.get(k, []):
            if takes_vm(f) and infallible(f.key) and not own_vm(f, t):
                n = 'frame' if 'frame' in (need[k], need.get(f.key)) else 'var'
                if need.get(f.key) != n:
                    need[f.key] = n
                    work.append(f.key)
    nf = 0
    for f in p.fns:
        if '#promoted' in f.key or not fall(f) or f.key in checks:
            continue
        sites = [(b, t, 'frame' if kd[0] == 'frame' else 'var') for b, t, kd in grow.get(f.key, []) if kd[0] != 'const' or kd[1] > 64]
        for b, t in f.calls():
            for g in p.callees(f, t):
                if g.key in need and not own_vm(f, t):
                    sites.append((b, t, need[g.key]))
        if not sites:
            continue
        oks = []
        for b, t in f.calls():
            for g in p.callees(f, t):
                if g.key in checks:
                    o = ok_block(f, b)
                    if o is not None and len([x for x in f.preds()[o] if not f.blocks[x].cleanup]) == 1:
                        oks.append((o, t, checks[g.key]))
        for b, t, kind in sites:
            dom = [x for x in oks if dominates(f, x[0], b)]
            what = 'pushes a frame' if kind == 'frame' else 'pushes a number of values known only at run time'
            if not dom:
                ctx.bad('frames and variable pushes', f.key, '%s without first making sure there is room (a failing check must end in a Ruby error)' % what, f.loc(t.span))
                continue
            if kind == 'frame' and takes_iseq(f) and not any(lvars_arg(p, f, x[1]) for x in dom):
                ctx.bad('frames and variable pushes', f.key, 'pushes the frame of a method or block, but the check does not cover its local variables', f.loc(t.span))
                continue
            nf += kind == 'frame'
            ctx.ok('frames and variable pushes', '%s %s' % (f.key, f.loc(t.span)))
    if nf < 5 and not ctx.viol:
        raise AnalysisError('only %d frame pushes found' % nf)
    ctx.assume('frames whose size does not depend on the program (top level, eval, binding) and operands of one instruction fit into the margin the check leaves')

def own_vm(f, t):
    """the call is on a VM the function has just made itself (an empty stack)"""
    from flow import single_def
    l = t.args[0].local if t.args else None
    for _ in range(4):
        if l is None:
            return False
        d = single_def(f, l)
        if d is None or d[0] == 'arg' or getattr(d[2], 'kind', '') not in ('ref', 'use'):
            return False
        pl = d[2].ops[0].place
        if pl is None:
            return False
        if d[2].kind == 'ref' and not pl.proj and drop_generics(f.types.get(pl.local, '')).split('::')[-1] == 'VM' and pl.local not in f.args:
            return True
        l = pl.local
    return False

def touches_sp_read(p, g, sp):
    return bool(g.args) and drop_generics(strip_ref(g.types.get(g.args[0], ''))).split('::')[-1] == 'RubyStack' and not (g.types[g.args[0]].startswith('&mut'))

def an_grows(p, g, sp, depth=0):
    """method of RubyStack that can raise the stack pointer"""
    if depth < 3:
        for b, t in g.calls():
            for h in p.callees(g, t):
                if h is not g and h.args and drop_generics(strip_ref(h.types.get(h.args[0], ''))).split('::')[-1] == 'RubyStack' and an_grows(p, h, sp, depth + 1):
                    return True
    for b in g.blocks:
        for s in g.blocks[b].stmts:
            if s.kind != 'assign':
                continue
            if touches_sp(g, s.place, sp):
                return True
            if s.rv.kind in ('ref', 'addr') and s.rv.a == 'mut' and touches_sp(g, s.rv.ops[0].place, sp) and not only_lowered(g, s):
                return True
    return False

def from_instruction(f, op):
    """the number is an operand of the instruction being executed"""
    from flow import single_def
    l = op.local
    for _ in range(4):
        if l is None:
            return False
        for b, t in f.calls():
            if t.dest is not None and t.dest.local == l and not t.dest.proj:
                return bool(re.search(r'::read\w*$', t.func or '')) and 'ISeqPtr' in (t.func or '')
        d = single_def(f, l)
        if d is None or d[0] == 'arg' or getattr(d[2], 'kind', '') not in ('use', 'cast'):
            return False
        l = d[2].ops[0].local
    return False

def array_len(f, op):
    """length of the array a slice operand was made from"""
    from flow import single_def
    l = op.local
    for _ in range(5):
        if l is None:
            return 0 if 'promoted' in str(op.path or op.text) else None
        m = re.match(r'&(?:mut )?\[.*; (\d+)\]$', f.types.get(l, ''))
        if m:
            return int(m.group(1))
        m = re.match(r'&(?:mut )?\[.*; ([A-Z_a-z:]+)\]$', f.types.get(l, ''))
        if m:
            return 8
        d = single_def(f, l)
        if d is None or d[0] == 'arg' or d[2] is None or not hasattr(d[2], 'kind') or d[2].kind not in ('use', 'cast', 'ref'):
            return None
        pl = d[2].ops[0].place
        if d[2].kind == 'ref' and pl is not None:
            m = re.match(r'\[.*; (\d+|[A-Z_a-z:]+)\]$', f.types.get(pl.local, '')) if not pl.proj else None
            if m:
                return int(m.group(1)) if m.group(1).isdigit() else 8
        l = pl.local if pl is not None else None
    return None

def takes_iseq(f):
    return any(drop_generics(f.types.get(a, '')).split('::')[-1] in ('ISeqRef', 'ISeqInfo') or 'Ref<' in f.types.get(a, '') and 'ISeq' in f.types.get(a, '') for a in f.args)

def lvars_arg(p, f, t):
    """an argument of the check is a field of an instruction sequence"""
    from flow import origin
    for a in t.args[1:]:
        seen, todo = set(), [a]
        while todo:
            o = todo.pop()
            if o.place is None:
                continue
            for pr in o.place.proj:
                if pr != '*' and pr[0] == 'f' and field_is(p, 'ISeqInfo', pr[1], 'lvars') and f is not None:
                    return True
            l = o.place.local
            if l in seen:
                continue
            seen.add(l)
            from flow import defs
            for d in defs(f).get(l, []):
                if d[0] == 'arg':
                    continue
                rv = d[2]
                if hasattr(rv, 'ops'):
                    todo += [x for x in rv.ops if x.place is not None]
    return False

def field_is(p, st, idx, name):
    its = [i for i in p.items.get(st, []) if i.kind == 'struct']
    return len(its) == 1 and idx < len(its[0].fields) and its[0].fields[idx][0] == name
