"""P10: frames, registers and results around calls.

A typestate over every function that can reach a write of the VM's frame register. The state is relative to function entry:
  k      depth of the frame register minus the number of frames the interpreter loop says it owns (invoke counter)
  z      what is known about that counter ('Z' zero, 'P' positive, '?' unknown, '-' not in scope)
  dirty  registers (pc, iseq, lfp, sp, temp) that still belong to a frame that is no longer current
  sp     the frame level the operand-stack pointer has already been moved to
  save   whether the caller's program counter was stored in its frame before a new one was started
  q, p   whether the current frame's result is wanted; what has happened to the result of the frame just popped
Obligations are at the places where control leaves this bookkeeping: builtins, functions that start a call, the interpreter
loop, and the fetch of the next instruction."""
import re
from program import AnalysisError, strip_ref, drop_generics, simple
from typestate import Engine, Client, BRANCH, RESID
from flow import const_value, const_path_value, defs, origin
from ruby import natives

BR, NBR = 0, 1                 # payload of Err: "leave the block" or anything else
REGS = {'pc': 'program counter', 'iseq': 'current code', 'lfp': 'local variables', 'sp': 'operand stack pointer', 'temp': 'temporary roots'}

def vm_fields(p):
    st = [i for i in p.items.get('VM', []) if i.kind == 'struct']
    if len(st) != 1:
        raise AnalysisError('no single struct VM')
    return {i: (n, str(t)) for i, (n, t) in enumerate(st[0].fields)}

class Frames(Client):
    params = True
    enums = frozenset(['VMResKind'])

    def __init__(self, ctx):
        self.ctx = ctx
        p = self.p = ctx.p
        fl = vm_fields(p)
        def one(ty):
            l = [i for i, (n, t) in fl.items() if re.search(r'\b%s$' % ty, t)]
            if len(l) != 1:
                raise AnalysisError('VM has %d fields of type %s' % (len(l), ty))
            return l[0]
        self.F = {one('ControlFrame'): 'cfp', one('ISeqPtr'): 'pc', one('ISeqRef'): 'iseq', one('LocalFrame'): 'lfp'}
        self.stack = one('RubyStack')
        tmp = [i for i, (n, t) in fl.items() if re.match(r'(std::vec::)?Vec<Value>$', t.replace('value::value::', ''))]
        if len(tmp) != 1:
            raise AnalysisError('VM has %d vectors of values' % len(tmp))
        self.temp = tmp[0]
        ek = [i for i in p.items.get('RubyErrorKind', []) if i.kind == 'enum']
        if len(ek) != 1:
            raise AnalysisError('no enum RubyErrorKind')
        self.ek = [n for n, _ in ek[0].variants]
        self.ekbr = self.ek.index('BlockReturn')
        vk = [i for i in p.items.get('VMResKind', []) if i.kind == 'enum']
        self.vk = [n for n, _ in vk[0].variants]
        self.reported = set()
        self.fetches = set()
        self.nexts = set()
        self._rel = {}
        self._flag = {}
        self.pops, self.nat, self.exits, self.links = set(), set(), set(), 0
        self.FLAGS = {}
        for n in ('FLG_DISCARD', 'FLG_IS_RUBY', 'EV_PC'):
            c = [f for f in p.fns if f.kind == 'const' and f.key.split('::')[-1] == n]
            v = const_path_value(p, c[0].key, c[0].crate) if len(c) == 1 else None
            if v is None:
                raise AnalysisError('constant %s not found' % n)
            self.FLAGS[n] = v
        self.natives = set(natives(p))
        self.prep()
        self.setpc = {g.key for g in p.fns if len(g.args) == 2 and self.isvm(g.types.get(g.args[0])) and (g.types.get(g.args[1]) or '').endswith('ISeqPos')
                      and g.key in self.reach and g.ret == '()'}
        self.dynclos = {f.key for f in p.fns if '{closure' in f.key and f.crate == 'ruruby' and f.key in self.reach
                        and any(self.isvm(f.types.get(a)) for a in f.args) and 'RubyError' in (f.ret or '') and 'VMResKind' not in f.ret}

    # ---- what kind of function is it --------------------------------------------------------------------------------
    def isvm(self, ty):
        t = strip_ref(ty or '').replace('vm::executor::', '').strip()
        return t in ('VM',)

    def vmfield(self, f, pl):
        """index path of a place inside the VM"""
        if len(pl.proj) >= 2 and pl.proj[0] == '*' and isinstance(pl.proj[1], tuple) and pl.proj[1][0] == 'f' and self.isvm(f.types.get(pl.local)):
            return tuple(x[1] for x in pl.proj[1:] if isinstance(x, tuple) and x[0] == 'f')
        if pl.proj and isinstance(pl.proj[0], tuple) and pl.proj[0][0] == 'f' and (f.types.get(pl.local) or '').replace('vm::executor::', '') == 'VM':
            return tuple(x[1] for x in pl.proj if isinstance(x, tuple) and x[0] == 'f')
        return None

    def takes_vm(self, f):
        return any(self.isvm(f.types.get(a)) or re.search(r'\bRef<(vm::executor::)?VM>$', f.types.get(a) or '') for a in f.args)

    def counter(self, f, o):
        """the place `o` is the invoke counter of f"""
        l = self.counters.get(f.key)
        if l is None or o is None or o.place is None:
            return False
        return (o.place.local, bool(o.place.proj)) == l if not o.place.proj or o.place.proj == ('*',) or list(o.place.proj) == ['*'] else False

    def prep(self):
        p = self.p
        direct, callers = set(), {}
        self.natsites = {}
        self.counters = {}
        self.vmfns = []
        for f in p.fns:
            if f.crate != 'ruruby':
                continue
            if 'VMResKind' in (f.ret or '') and 'Result' in f.ret:
                direct.add(f.key)
            for b in f.blocks:
                blk = f.blocks[b]
                for s in blk.stmts:
                    if s.kind == 'assign' and s.place.proj:
                        w = self.vmfield(f, s.place)
                        if w and (self.F.get(w[0]) or w == (self.stack, 0)):
                            direct.add(f.key)
                t = blk.term
                if t.kind == 'call':
                    if len(t.args) == 2 and re.search(r'IndexMut<.*>>::index_mut$', t.func or '') and (t.args[1].path or '').split('::')[-1] == 'EV_PC':
                        direct.add(f.key)
                    if len(t.args) == 1 and (t.func or '').endswith('::enc') and 'ControlFrame' in t.func:
                        direct.add(f.key)
                    if not t.func and any(a.place is not None and not a.place.proj and self.isvm(f.types.get(a.place.local)) for a in t.args):
                        direct.add(f.key)
                        self.natsites[(f.key, b)] = t
                    for g in p.callees(f, t):
                        callers.setdefault(g.key, set()).add(f.key)
        work = list(direct)
        reach = set(direct)
        while work:
            k = work.pop()
            for c in callers.get(k, ()):
                if c not in reach:
                    reach.add(c)
                    work.append(c)
        # bits that the frame flag word is tested against
        self.bits = {}
        for f in p.fns:
            if f.ret == 'bool' and f.crate == 'ruruby':
                v = self.flagbit(f)
                if v:
                    self.bits[f.key] = v
        self.reach = reach | {k for k in self.bits}
        self.callers = callers
        # the interpreter loop: a VM function with a `&mut usize` that hands out frames
        for k in reach:
            f = p.by_key[k]
            for a in f.args:
                if f.types.get(a) == '&mut usize' and any(self.isvm(f.types.get(x)) for x in f.args):
                    self.counters[k] = (a, True)
        for k in sorted(reach):
            f = p.by_key[k]
            if k in self.counters:
                continue
            for b, t in [(b, f.blocks[b].term) for b in f.blocks if f.blocks[b].term.kind == 'call']:
                for g in p.resolve(t.func, f.crate) if t.func else []:
                    if g.key in self.counters and self.counters[g.key][1]:
                        i = list(g.args).index(self.counters[g.key][0])
                        o = t.args[i]
                        # follow &mut reborrow to the local
                        l = self.refroot(f, o.place.local if o.place is not None else None)
                        if l is None or f.types.get(l) != 'usize':
                            raise AnalysisError('%s: counter handed to %s is not a local' % (f.key, g.key))
                        self.counters[k] = (l, False)

    def refroot(self, f, l):
        for _ in range(6):
            ds = defs(f).get(l, [])
            ds = [d for d in ds if d[0] != 'arg']
            if f.types.get(l) == 'usize':
                return l
            if len(ds) != 1 or getattr(ds[0][2], 'kind', '') not in ('ref', 'use'):
                return None
            pl = ds[0][2].ops[0].place
            if pl is None:
                return None
            l = pl.local
        return None

    def flagbit(self, f):
        """(constant, true-when-set) when f only reports one bit of a frame's flag word"""
        consts, kinds = [], set()
        for b in f.blocks:
            blk = f.blocks[b]
            if blk.term.kind == 'switch':
                return None
            for s in blk.stmts:
                if s.kind == 'assign' and s.rv.kind == 'bin':
                    kinds.add(s.rv.a)
                    if s.rv.a == 'BitAnd':
                        for o in s.rv.ops:
                            if o.kind == 'const':
                                consts.append(const_value(self.p, o, f.crate))
        if len(consts) != 1 or not kinds <= {'BitAnd', 'Ne', 'Eq'} or consts[0] is None:
            return None
        if not any(self.isvm(f.types.get(a)) for a in f.args) and 'frame' not in f.key.lower():
            return None
        if not (any(self.isvm(f.types.get(a)) for a in f.args)):
            return None
        return (consts[0], 'Ne' in kinds)

    def relevant(self, g):
        return g.key in self.reach and g.crate == 'ruruby'

    # ---- state ------------------------------------------------------------------------------------------------------
    START = (0, '-', frozenset(), None, None, None, None)

    def entry_env(self, f, ts):
        env = {}
        for i, tg in ts[-1]:
            if i < len(f.args):
                env[f.args[i]] = tg
        return tuple(sorted(env.items(), key=repr))

    def shift(self, tag, d):
        """frame tags are relative to function entry"""
        if isinstance(tag, tuple) and tag[0] in ('d', 'ep', 'lfpv', 'pcv', 'iseqv', 'psp') and isinstance(tag[1], int):
            return (tag[0], tag[1] + d)
        if isinstance(tag, tuple) and tag[0] == 'sv' and len(tag) == 3:
            return (tag[0], tag[1], tag[2] + d)
        return tag

    def shiftd(self, dirty, d):
        return frozenset((x[0], x[1] + d) if isinstance(x, tuple) else x for x in dirty) if d else dirty

    def enter(self, f, b, t, g, ts, env):
        k = ts[0]
        pt = []
        for i, a in enumerate(t.args):
            if a.place is not None and not a.place.proj:
                v = env.get(a.place.local)
                if v is None:
                    continue
                if isinstance(v, int) or v[0] == 'pv':
                    if 'VMResKind' in (f.types.get(a.place.local) or ''):
                        pt.append((i, v))
                elif v[0] in ('d', 'ep', 'lfpv', 'pcv', 'iseqv', 'psp'):
                    pt.append((i, self.shift(v, -k)))
                elif v[0] == 'sv':
                    pt.append((i, self.shift(v, -k)))
        z = ts[1] if g.key in self.counters and self.counters[g.key][1] else '-'
        if self.contract(g) not in ('', 'loop'):
            return self.START + (tuple(pt),)
        sp = None if ts[3] is None else ts[3] - k
        if self.contract(g) == 'loop':
            return (0, z, self.shiftd(ts[2], -k), sp, None, None, ts[6] if ts[6] in ('need', 'unknown') else None, tuple(pt))
        return (0, z, self.shiftd(ts[2], -k), sp, ts[4], ts[5], ts[6], tuple(pt))

    def leave(self, f, b, t, g, ts, tin, tout, tag, env):
        if re.search(r'(^|[:<])VM>?$|VMRef$', g.ret or ''):
            return [(ts, tag)]          # another VM
        if self.contract(g) not in ('', 'loop'):
            tout = (tout[0], ts[1], self.shiftd(ts[2], -ts[0]), None if ts[3] is None else ts[3] - ts[0], None if tout[0] > 0 else ts[4], None if tout[0] else ts[5], ts[6])
        z = tout[1] if g.key in self.counters and self.counters[g.key][1] else ts[1]
        sp = None if tout[3] is None else tout[3] + ts[0]
        k = ts[0] + tout[0]
        if abs(k) > 4:
            self.bad(f, b, 'frames pile up', 'the number of frames pushed and popped differs from one pass of a loop to the next')
            return []
        tag = self.shift(tag, ts[0])
        t2 = (k, z, self.shiftd(tout[2], ts[0]), sp, tout[4], tout[5], tout[6])
        if self.owner(f) and not self.owner(g) and 'Result' in (g.ret or '') and tag is not None:
            # inside the loop an error that comes out of a call is not a `break` (see the assumptions)
            v = tag if isinstance(tag, int) else tag[1] if tag[0] == 'pv' else None
            if v == 1 and 'RubyError' in g.ret:
                tag = ('pv', 1, NBR)
        return [(t2, tag)]

    def owner(self, f):
        return f.key in self.counters

    def bad(self, f, b, key, msg):
        k = '%s: %s' % (f.key, key)
        if k in self.reported:
            return
        self.reported.add(k)
        self.ctx.bad('frames', k, '%s: %s' % (f.key, msg), str(self.line(f, b)))

    def line(self, f, b):
        sp = getattr(f.blocks[b].term, 'span', None) if b is not None else None
        return sp or getattr(f, 'line', '')

    # ---- statements -------------------------------------------------------------------------------------------------
    def tagof(self, f, o, env):
        if o.place is None:
            return None
        if not o.place.proj:
            return env.get(o.place.local)
        return None

    def opvalue(self, f, o, rv, ts, env):
        k, z, dirty = ts[0], ts[1], ts[2]
        if o.place is None:
            return None
        w = self.vmfield(f, o.place)
        if w is not None and len(w) == 1:
            n = self.F.get(w[0])
            if n == 'cfp':
                return ('d', k)
            if n in ('pc', 'iseq', 'lfp') and n not in dirty and rv.kind != 'ref':
                return ('sv', n, k)
        if not o.place.proj or all(x == '*' for x in o.place.proj):
            v = env.get(o.place.local)
            if isinstance(v, tuple) and v[0] in ('d', 'ep', 'lfpv', 'pcv', 'iseqv', 'psp', 'sv', 'def'):
                return v
        if len(o.place.proj) == 2 and o.place.proj[0][0] == 'as':
            v = env.get(o.place.local)
            if isinstance(v, tuple) and v[0] == 'd':
                return v
        return None

    def value(self, f, b, s, ts, env):
        if s.kind != 'assign' or s.place.proj:
            return None
        rv = s.rv
        k, z, dirty = ts[0], ts[1], ts[2]
        if rv.kind == 'agg' and rv.a == 'tuple':
            tags = tuple(self.opvalue(f, o, rv, ts, env) for o in rv.ops)
            return ('tup', tags) if any(tags) else None
        if rv.kind in ('use', 'ref'):
            o = rv.ops[0]
            if o.place is not None and len(o.place.proj) == 1 and isinstance(o.place.proj[0], tuple) and o.place.proj[0][0] == 'f':
                v = env.get(o.place.local)
                if isinstance(v, tuple) and v[0] == 'tup' and o.place.proj[0][1] < len(v[1]):
                    return v[1][o.place.proj[0][1]]
            if rv.kind == 'use' and self.owner(f) and self.counter(f, o):
                return ('cv',)
            if o.place is not None:
                pr = [x for x in o.place.proj if x != '*']
                if rv.kind == 'ref' and pr and pr[-1][0] == 'f' and re.search(r'RubyErrorKind$', str(pr[-1][2])):
                    return ('ekref', o.place.local, 'as' if len(pr) == 3 else 'self')
                return self.opvalue(f, o, rv, ts, env)
        elif rv.kind == 'discr':
            pl = rv.ops[0].place
            pr = [x for x in pl.proj if x != '*']
            if len(pr) == 2 and pr[0][0] == 'as':
                v = env.get(pl.local)
                if isinstance(v, tuple) and v[0] == 'pv' and 'VMResKind' in str(pr[1][2]):
                    return v[2]
            if pr and pr[-1][0] == 'f' and re.search(r'RubyErrorKind$', str(pr[-1][2])):
                return ('ek', pl.local, 'as' if len(pr) == 3 else 'self')
            if not pr and re.search(r'RubyErrorKind$', strip_ref(f.types.get(pl.local) or '')):
                r = env.get(pl.local)
                if isinstance(r, tuple) and r[0] == 'ekref':
                    return ('ek', r[1], r[2])
        elif rv.kind == 'bin' and self.owner(f):
            if rv.a in ('Eq', 'Ne', 'Gt') and (self.counter(f, rv.ops[0]) or self.tagof(f, rv.ops[0], env) == ('cv',)) and \
                    rv.ops[1].kind == 'const' and const_value(self.p, rv.ops[1], f.crate) == 0:
                return ('cz', rv.a == 'Eq')
            if re.search(r'Add|Sub', rv.a) and (self.counter(f, rv.ops[0]) or self.tagof(f, rv.ops[0], env) == ('cv',)):
                d = const_value(self.p, rv.ops[1], f.crate) if rv.ops[1].kind == 'const' else None
                if not isinstance(d, int):
                    raise AnalysisError('%s: frame counter changed by an unknown amount' % f.key)
                return ('cnt', -d if 'Sub' in rv.a else d)
        return None

    def stmt(self, f, b, i, s, ts, env):
        if s.kind != 'assign':
            return ts
        k, z, dirty, sp, save, q, p = ts
        rv = s.rv
        # invoke counter
        if self.owner(f):
            cl = self.counters[f.key]
            if s.place.local == cl[0] and (list(s.place.proj) == ['*'] if cl[1] else not s.place.proj):
                o = rv.ops[0] if rv.ops else None
                if rv.kind == 'use' and o.kind == 'const' and const_value(self.p, o, f.crate) == 0:
                    return (k, 'Z', dirty, sp, save, q, p)
                v = env.get(o.place.local) if rv.kind == 'use' and o.place is not None else None
                if isinstance(v, tuple) and v[0] == 'cnt':
                    d = v[1]
                    if d < 0 and z == 'Z':
                        self.bad(f, b, 'counter underflow', 'the count of frames owned by the loop is decremented when it is known to be zero')
                        return None
                    nk = k - d
                    if abs(nk) > 4:
                        self.bad(f, b, 'frames pile up', 'the frame counter and the frames drift apart in a loop')
                        return None
                    return (nk, 'P' if d > 0 else '?', dirty, None if sp is None else sp - d, save, q, p)
                raise AnalysisError('%s: frame counter assigned in a way that is not understood' % f.key)
        if not s.place.proj:
            return ts
        w = self.vmfield(f, s.place)
        if w is None:
            # the saved program counter of a frame
            if list(s.place.proj) == ['*']:
                v = env.get(s.place.local)
                if isinstance(v, tuple) and v[0] == 'pcslot':
                    if v[1] == k and save is None:
                        save = 'saved'
                    return (k, z, dirty, sp, save, q, p)
            return ts
        n = self.F.get(w[0]) if len(w) == 1 else None
        tag = self.tagof(f, rv.ops[0], env) if rv.kind == 'use' else None
        if n == 'cfp':
            if not (isinstance(tag, tuple) and tag[0] == 'd'):
                self.bad(f, b, 'frame register', 'the frame register is set to a frame that is neither new, nor the previous one, nor a saved one')
                return None
            nk = tag[1]
            if nk > k:
                return (nk, z, dirty, None, 'pushed' if save == 'saved' else 'unsaved', None, p)
            if nk < k:
                self.pops.add((f.key, b, i))
                d = {x for x in dirty if isinstance(x, str)} | {x for x in ('lfp', 'iseq', 'pc') if (x, nk) not in dirty}
                for x in ('lfp', 'iseq', 'pc'):
                    if (x, nk) in dirty:
                        d.discard(x)
                if sp == nk:
                    d.discard('sp')
                else:
                    d.add('sp')
                np = {'U': 'need', 'D': 'none', None: 'unknown'}[q]
                return (nk, z, frozenset(d), None, None, None, np)
            return ts
        if w == (self.stack, 0):
            if isinstance(tag, tuple) and tag[0] == 'psp':
                j = tag[1] - 1
                if j == k:
                    return (k, z, dirty - {'sp'}, sp, save, q, p)
                return (k, z, dirty, j, save, q, p)
            return ts
        if n in ('pc', 'iseq', 'lfp'):
            want = {'pc': 'pcv', 'iseq': 'iseqv', 'lfp': 'lfpv'}[n]
            if isinstance(tag, tuple) and tag[0] == 'sv':
                if tag[1] == n:
                    dirty = frozenset(x for x in dirty if not (x == n or isinstance(x, tuple) and x[0] == n))
                    if tag[2] != k:
                        dirty |= {(n, tag[2])}
                return (k, z, dirty, sp, save, q, p)
            if isinstance(tag, tuple) and tag[0] == want:
                if tag[1] == k:
                    if not (n == 'pc' and 'iseq' in dirty):
                        dirty = dirty - {n}
                else:
                    self.bad(f, b, 'wrong frame ' + n, 'restores the %s of a frame other than the current one' % REGS[n])
                return (k, z, dirty, sp, save, q, p)
            if n in ('iseq', 'pc') and save == 'unsaved':
                self.bad(f, b, 'saved pc', 'starts running other code before the program counter of the frame below was stored')
            if n == 'pc' and save in ('unsaved', 'pushed'):
                return (k, z, dirty, sp, None, q, p)
        return ts

    # ---- calls ------------------------------------------------------------------------------------------------------
    def call(self, f, b, t, ts, env):
        k, z, dirty, sp, save, q, p = ts
        fn = t.func or ''
        if (f.key, b) in self.natsites:
            d = frozenset(REGS)
            self.nat.add((f.key, b))
            return [((k, z, d, None, None, None, None), 0), ((k, z, d, None, None, None, None), 1)]
        a0 = self.tagof(f, t.args[0], env) if t.args else None
        rty = f.types.get(t.dest.local) if t.dest is not None and not t.dest.proj else None
        gs = self.p.resolve(fn, f.crate) if fn else []
        if len(gs) == 1 and gs[0].key in self.bits:
            bit, pos = self.bits[gs[0].key]
            if bit == self.FLAGS['FLG_DISCARD']:
                if q is not None:
                    return [(ts, int((q == 'D') == pos))]
                return [((k, z, dirty, sp, save, 'D', p), int(pos)), ((k, z, dirty, sp, save, 'U', p), int(not pos))]
            if bit == self.FLAGS['FLG_IS_RUBY']:
                d2 = dirty - {'iseq', 'pc'} if 'iseq' in dirty else dirty
                return [(ts, int(pos)), ((k, z, d2, sp, save or 'saved', q, p), int(not pos))]
        if rty and rty.endswith('ControlFrame') or (rty and re.search(r'Option<.*ControlFrame>$', rty)):
            for g in gs:
                r = self.retkind(g)
                if r == 'prev' and isinstance(a0, tuple) and a0[0] == 'd':
                    return [(ts, ('d', a0[1] - 1))]
                if r == 'new':
                    return [(ts, ('d', k + 1))]
            if re.search(r'::default$|Default>::default$', fn):
                return [(ts, ('def',))]
            if re.search(r'(unwrap|expect|clone)$', re.sub(r'::<.*>$', '', fn)) and isinstance(a0, tuple) and a0[0] == 'd':
                return [(ts, a0)]
        if rty and re.search(r'StackPtr$', rty) and isinstance(a0, tuple) and a0[0] == 'd' and gs and any(self.retkind(g) == 'prevsp' for g in gs):
            return [(ts, ('psp', a0[1]))]
        if isinstance(a0, tuple) and a0[0] in ('d', 'ep') and rty:
            if rty.endswith('EnvFrame') and a0[0] == 'd' and any(self.retkind(g) == 'ep' for g in gs):
                return [(ts, ('ep', a0[1]))]
            if rty.endswith('LocalFrame') and a0[0] == 'ep':
                return [(ts, ('lfpv', a0[1]))]
            if re.search(r'ISeqRef$|Ref<.*ISeqInfo>$', rty) and a0[0] == 'ep':
                return [(ts, ('iseqv', a0[1]))]
            if rty.endswith('ISeqPos') and a0[0] == 'd':
                return [(ts, ('pcv', a0[1]))]
            if fn.endswith('::enc') and a0[0] == 'd':
                if a0[1] != k - 1 and save in ('pushed', 'unsaved'):
                    self.bad(f, b, 'link', 'a new frame is linked to a frame other than the one it was started from')
                else:
                    self.links += 1
                return [(ts, None)]
            if a0[0] == 'd' and re.search(r'IndexMut<.*>>::index_mut$', fn):
                if len(t.args) > 1 and t.args[1].kind == 'const' and const_value(self.p, t.args[1], f.crate) == self.FLAGS['EV_PC']:
                    return [(ts, ('pcslot', a0[1]))]
        if fn.endswith('::enc') and isinstance(a0, tuple) and a0[0] == 'def':
            if save == 'pushed':
                self.bad(f, b, 'link', 'a new frame is linked to nothing although a frame is current')
            return [(ts, None)]
        # temporary roots
        if t.args and t.args[0].place is not None:
            tv = self.tempvec(f, t.args[0])
            if tv and re.search(r'Vec::<.*>::len$', fn):
                return [(ts, ('sv', 'temp') if 'temp' not in dirty else None)]
            if tv and re.search(r'Vec::<.*>::truncate$', fn):
                v = self.tagof(f, t.args[1], env)
                if v == ('sv', 'temp'):
                    return [((k, z, dirty - {'temp'}, sp, save, q, p), None)]
                return [(ts, None)]
        if gs and any(self.retkind(g) == 'templen' for g in gs) and self.isvm(f.types.get(t.args[0].place.local) if t.args and t.args[0].place is not None else ''):
            return [(ts, ('sv', 'temp') if 'temp' not in dirty else None)]
        # error constructors and predicates
        if rty and re.search(r'\bRubyError$', rty) and gs:
            r = self.errkind(gs[0])
            if r is not None:
                return [(ts, r)]
        if rty == 'bool' and len(gs) == 1 and len(gs[0].args) == 1 and re.search(r'\bRubyError$', strip_ref(gs[0].types.get(gs[0].args[0]) or '')):
            pr = self.errpred(gs[0])
            if pr is not None:
                root = self.refplace(f, t.args[0])
                out = []
                for val in (0, 1):
                    allowed = pr if val else set(range(len(self.ek))) - pr
                    br = self.ekbr in allowed
                    nb = bool(allowed - {self.ekbr})
                    cur = self.errtag(env, root)
                    if cur == BR and not br or cur == NBR and not nb:
                        continue
                    e2 = dict(env)
                    if br != nb:
                        self.seterr(e2, root, BR if br else NBR)
                    out.append((ts, val, e2))
                return out
        # results on the operand stack
        if self.owner(f) and gs and any(self.pushes(g) for g in gs) and len(t.args) == 2 and p is not None:
            if p == 'need':
                return [((k, z, dirty, sp, save, q, 'ok'), None)]
            if p == 'none':
                self.bad(f, b, 'unwanted result', 'leaves the result of a finished frame on the operand stack although the caller asked for it to be discarded')
            elif p == 'unknown':
                self.bad(f, b, 'unasked result', 'leaves the result of a finished frame on the operand stack without asking whether the caller wants it')
            return [((k, z, dirty, sp, save, q, 'ok'), None)]
        if gs and any(g.key in self.setpc for g in gs):
            v = self.tagof(f, t.args[1], env)
            if isinstance(v, tuple) and v[0] == 'pcv':
                if v[1] != k:
                    self.bad(f, b, 'wrong frame pc', 'restores the program counter of a frame other than the current one')
                if 'iseq' not in dirty:
                    dirty = dirty - {'pc'}
                return [((k, z, dirty, sp, save, q, p), None)]
            # control is moved to a handler: the interrupted call has no result any more
            return [((k, z, dirty, sp, save, q, None), None)]
        if self.owner(f) and self.contract(f) == 'loop' and self.is_fetch(f, b, t):
            self.fetches.add((f.key, b))
            self.check_fetch(f, b, ts)
            return [((k, z, frozenset(), None, None, None, None), None)]
        if self.owner(f) and rty and 'Result<' in rty and rty.rstrip('>').endswith('RubyError') and not (gs and any(self.relevant(g) for g in gs)) and not (BRANCH.search(fn) or RESID.search(fn)):
            return [(ts, 0), (ts, ('pv', 1, NBR))]
        if not self.owner(f) and gs and rty and 'Result<' in rty and rty.rstrip('>').endswith('RubyError') and not any(self.relevant(g) or self.breaks(g) for g in gs):
            return [(ts, 0), (ts, ('pv', 1, NBR))]
        # errors handed on by `?` keep their kind
        if isinstance(a0, tuple) and a0[0] == 'pv' and a0[1] == 1 and isinstance(a0[2], int) and 'RubyError' in (f.types.get(t.args[0].place.local) or ''):
            if BRANCH.search(fn):
                return [(ts, ('pv', 1, ('pv', 1, a0[2])))]
            if RESID.search(fn):
                return [(ts, ('pv', 1, a0[2]))]
        return None

    def tempvec(self, f, o):
        l = o.place.local
        if o.place.proj:
            return False
        for d in defs(f).get(l, []):
            if d[0] != 'arg' and getattr(d[2], 'kind', '') == 'ref':
                w = self.vmfield(f, d[2].ops[0].place)
                if w == (self.temp,):
                    return True
        return False

    def refplace(self, f, o):
        """(local, how) the error behind a reference lives in"""
        if o.place is None:
            return None
        l = o.place.local
        for _ in range(5):
            if not (f.types.get(l) or '').startswith('&'):
                return (l, 'self')
            ds = [d for d in defs(f).get(l, []) if d[0] != 'arg']
            if len(ds) != 1 or getattr(ds[0][2], 'kind', '') not in ('ref', 'use'):
                return None
            pl = ds[0][2].ops[0].place
            if pl is None:
                return None
            pr = [x for x in pl.proj if x != '*']
            if len(pr) == 2 and pr[0][0] == 'as':
                return (pl.local, 'as')
            if pr:
                return None
            l = pl.local
        return None

    def errtag(self, env, root):
        if root is None:
            return None
        v = env.get(root[0])
        if root[1] == 'as':
            return v[2] if isinstance(v, tuple) and v[0] == 'pv' else None
        return v if isinstance(v, int) else None

    def seterr(self, env, root, x):
        if root is None:
            return
        if root[1] == 'as':
            env[root[0]] = ('pv', 1, x)
        else:
            env[root[0]] = x

    def switch_tag(self, f, b, tag, kk, vals, ts, env):
        k, z, dirty, sp, save, q, p = ts
        if tag[0] == 'ek':
            root = (tag[1], tag[2])
            cur = self.errtag(env, root)
            allowed = {kk} if kk is not None else set(range(len(self.ek))) - set(vals)
            br = self.ekbr in allowed
            nb = bool(allowed - {self.ekbr})
            if cur == BR and not br or cur == NBR and not nb:
                return None
            if br != nb:
                self.seterr(env, root, BR if br else NBR)
            return ts
        if tag[0] in ('cz', 'cv'):
            if tag[0] == 'cv':
                if 0 in vals and kk is None:
                    return None if z == 'Z' else (k, 'P', dirty, sp, save, q, p)
                if kk == 0:
                    return None if z == 'P' else (k, 'Z', dirty, sp, save, q, p)
                return None if z == 'Z' else ts
            v = kk if kk is not None else (1 - vals[0] if len(vals) == 1 else None)
            if v is None:
                return ts
            zero = bool(v) == tag[1]
            if zero:
                return None if z == 'P' else (k, 'Z', dirty, sp, save, q, p)
            return None if z == 'Z' else (k, 'P', dirty, sp, save, q, p)
        return ts

    # ---- small summaries ---------------------------------------------------------------------------------------------
    def retkind(self, g):
        r = self._flag.get(g.key)
        if r is None:
            r = self._retkind(g) or ''
            self._flag[g.key] = r
        return r

    def _retkind(self, g):
        consts = {o.path.split('::')[-1] for b in g.blocks for o in self.ops(g, b) if o.kind == 'const' and o.path}
        ret = g.ret or ''
        if re.search(r'ControlFrame>?$', ret) and len(g.args) == 1 and re.search(r'ControlFrame$', strip_ref(g.types.get(g.args[0]) or '')):
            return 'prev' if 'Option' in ret else None
        if ret.endswith('ControlFrame') and re.search(r'StackPtr$', strip_ref(g.types.get(g.args[0]) or '') if g.args else ''):
            return 'new'
        if ret.endswith('StackPtr') and len(g.args) == 1 and re.search(r'ControlFrame$', strip_ref(g.types.get(g.args[0]) or '')):
            return 'prevsp' if 'EV_FLAG' in consts or any('flag' in (g.blocks[b].term.func or '') for b in g.blocks if g.blocks[b].term.kind == 'call') else None
        if ret.endswith('EnvFrame') and len(g.args) == 1:
            return 'ep' if 'EV_EP' in consts else None
        if ret == 'usize' and len(g.args) == 1 and self.isvm(g.types.get(g.args[0])):
            for b in g.blocks:
                t = g.blocks[b].term
                if t.kind == 'call' and re.search(r'Vec::<.*>::len$', t.func or '') and self.tempvec(g, t.args[0]):
                    return 'templen'
        return None

    def ops(self, g, b):
        blk = g.blocks[b]
        for s in blk.stmts:
            if s.kind == 'assign':
                for o in s.rv.ops:
                    yield o
        if blk.term.kind == 'call':
            for o in blk.term.args:
                yield o

    def errkind(self, g):
        """BR or NBR for functions that only build an error of one kind"""
        r = self._flag.get(('e', g.key))
        if r is None:
            r = ''
            if re.search(r'\bRubyError$', g.ret or ''):
                ks = set()
                for b in g.blocks:
                    for s in g.blocks[b].stmts:
                        if s.kind == 'assign' and s.rv.kind == 'agg' and s.rv.a in ('variant', 'struct'):
                            tx = s.rv.text[0] if isinstance(s.rv.text, tuple) else s.rv.text
                            m = re.search(r'RubyErrorKind(?:::)?::(\w+)', drop_generics(tx or ''))
                            if m:
                                ks.add(m.group(1))
                if not ks:      # built by another constructor
                    sub = set()
                    for b, t in g.calls():
                        if t.dest is not None and re.search(r'\bRubyError$', g.types.get(t.dest.local, '')):
                            hs = self.p.resolve(t.func, g.crate) if t.func else []
                            sub.add(self.errkind(hs[0]) if len(hs) == 1 and hs[0] is not g else None)
                    if sub and None not in sub and len(sub) == 1:
                        r = sub.pop()
                if ks:
                    r = BR if ks == {'BlockReturn'} else NBR if 'BlockReturn' not in ks else ''
            self._flag[('e', g.key)] = r
        return None if r == '' else r

    def breaks(self, g, seen=None):
        """may build the error that leaves a block"""
        r = self._flag.get(('b', g.key))
        if r is None:
            seen = seen or set()
            seen.add(g.key)
            r = re.search(r'\bRubyError$', g.ret or '') is not None and self.errkind(g) == BR
            for b, t in g.calls():
                if r:
                    break
                r = any(h.key not in seen and self.breaks(h, seen) for h in self.p.callees(g, t))
            self._flag['b', g.key] = r
        return r

    def errpred(self, g):
        r = self._flag.get(('p', g.key))
        if r is None:
            r = ''
            b0 = g.blocks[0]
            d = [s for s in b0.stmts if s.kind == 'assign' and s.rv.kind == 'discr']
            if len(d) == 1 and b0.term.kind == 'switch':
                res, ok = set(), True
                vals = [v for v, _ in b0.term.targets if v is not None and v != 'otherwise']
                for v, dst in b0.term.targets:
                    c = [s for s in g.blocks[dst].stmts if s.kind == 'assign' and s.place.local == 0]
                    if len(c) != 1 or c[0].rv.kind != 'use' or c[0].rv.ops[0].text not in ('true', 'false'):
                        ok = False
                        break
                    if c[0].rv.ops[0].text == 'true':
                        res |= {v} if v in vals else set(range(len(self.ek))) - set(vals)
                if ok:
                    r = res
            self._flag[('p', g.key)] = r
        return None if r == '' else r

    def pushes(self, g):
        """g puts its second argument on the operand stack"""
        r = self._flag.get(('s', g.key))
        if r is None:
            r = False
            if len(g.args) == 2 and self.isvm(g.types.get(g.args[0])) and (g.types.get(g.args[1]) or '').endswith('Value') and g.ret == '()':
                for b in g.blocks:
                    t = g.blocks[b].term
                    if t.kind == 'call' and re.search(r'RubyStack::push$', t.func or ''):
                        r = True
            self._flag[('s', g.key)] = r
        return r

    def is_fetch(self, f, b, t):
        """the call whose result selects the instruction handler"""
        r = self._flag.get(('f', f.key))
        if r is None:
            big = None
            for x in f.blocks:
                tt = f.blocks[x].term
                if tt.kind == 'switch' and len(tt.targets) > 40:
                    big = tt.op.place.local
            if big is None:
                raise AnalysisError('%s: no instruction dispatch found' % f.key)
            r = set()
            from flow import origin
            ds = [big]
            seen = set()
            while ds:
                l = ds.pop()
                if l in seen:
                    continue
                seen.add(l)
                for x in f.blocks:
                    tt = f.blocks[x].term
                    if tt.kind == 'call' and not tt.dest.proj and tt.dest.local == l:
                        r.add(x)
                    for s in f.blocks[x].stmts:
                        if s.kind == 'assign' and not s.place.proj and s.place.local == l:
                            for o in s.rv.ops:
                                if o.place is not None and not o.place.proj:
                                    ds.append(o.place.local)
            if len(r) != 1:
                raise AnalysisError('%s: %d instruction fetches' % (f.key, len(r)))
            self._flag[('f', f.key)] = r
        return b in r

    def check_fetch(self, f, b, ts):
        k, z, dirty, sp, save, q, p = ts
        self.nexts.add('%s bb%d %s %s %s' % (f.key, b, k, sorted(map(str, dirty)), p))
        if k != 0:
            self.bad(f, b, 'depth at fetch', 'goes on with the next instruction %d frame%s %s than it accounts for' % (abs(k), '' if abs(k) == 1 else 's', 'more' if k > 0 else 'fewer'))
        dirty = {x if isinstance(x, str) else x[0] for x in dirty}
        if dirty:
            self.bad(f, b, 'stale ' + '/'.join(sorted(dirty)), 'goes on with the next instruction while %s still belong%s to another frame' % (', '.join(REGS[x] for x in sorted(dirty)), 's' if len(dirty) == 1 else ''))
        if p == 'need':
            self.bad(f, b, 'lost result', 'goes on with the next instruction although the result of a finished frame that the caller wants was not put on the operand stack')
        elif p == 'unknown':
            self.bad(f, b, 'unasked result', 'goes on after finishing a frame without asking whether the caller wants its result')

    # ---- obligations at returns -----------------------------------------------------------------------------------------
    def dispatches(self, f):
        return any(f.blocks[x].term.kind == 'switch' and len(f.blocks[x].term.targets) > 40 for x in f.blocks)

    def contract(self, f):
        c = self._rel.get(f.key)
        if c is None:
            c = ''
            ret = f.ret or ''
            if f.key in self.counters:
                c = 'run' if not self.counters[f.key][1] else 'loop' if self.dispatches(f) else ''
            elif 'VMResKind' in ret and 'Result' in ret:
                c = 'invoke'
            elif any(fk == f.key for fk, _ in self.natsites):
                c = 'native call'
            elif f.key in self.natives or f.key in self.dynclos:
                c = 'neutral'
            elif 'Result' in ret and 'RubyError' in ret and self.takes_vm(f) and not any('VMResKind' in (f.types.get(a) or '') for a in f.args) \
                    and any(not self.p.by_key[x].file.endswith(('executor/frame.rs', 'executor.rs', 'opt_core.rs', 'executor/method.rs')) and '/frame/' not in self.p.by_key[x].file for x in self.callers.get(f.key, ())):
                c = 'neutral'
            self._rel[f.key] = c
        return c

    def at_return(self, f, b, ts, env):
        c = self.contract(f)
        if not c:
            return ts
        k, z, dirty, sp, save, q, p = ts
        v = env.get(0)
        var = v if isinstance(v, int) else v[1] if isinstance(v, tuple) and v[0] == 'pv' else None
        pay = v[2] if isinstance(v, tuple) and v[0] == 'pv' else None
        self.exits.add((f.key, b, k, z, var, pay))
        if c == 'invoke':
            want = 1 if var == 0 and pay is not None and self.vk[pay] == 'Invoke' else 0
            if var == 0 and pay is None:
                raise AnalysisError('%s: cannot tell whether it returns Invoke or Return' % f.key)
            if k != want:
                self.bad(f, b, 'depth at exit', '%s with %s frame' % ('asks for a frame to be run' if want else 'finishes the call itself' if var == 0 else 'fails', 'no new' if want else 'a leftover' if k > want else 'a missing'))
            k = want
        elif c == 'run':
            if z != 'Z':
                self.bad(f, b, 'counter at exit', 'leaves the interpreter loop although it may still own frames of calls it started')
            if k != -1:
                self.bad(f, b, 'depth at exit', 'leaves the interpreter loop %s' % ('without removing the frame it was called for' if k > -1 else 'after removing a frame of its caller'))
            k = -1
        elif c == 'loop':
            if var == 1 and pay == BR:
                if k != -1 or z != 'Z':
                    self.bad(f, b, 'break', 'leaves a block by `break` %s' % ('without removing exactly its frame' if k != -1 else 'although frames of calls it started are still counted'))
                k, z = -1, 'Z'
            else:
                if k != 0:
                    self.bad(f, b, 'depth at exit', 'returns with %d frame%s %s than counted' % (abs(k), '' if abs(k) == 1 else 's', 'more' if k > 0 else 'fewer'))
                if var == 0 and z != 'Z':
                    self.bad(f, b, 'counter at exit', 'returns a result although frames of calls it started are still counted')
                k = 0
        else:
            if k != 0:
                self.bad(f, b, 'depth at exit', 'returns %s with %d frame%s %s than at entry' % ('an error' if var == 1 else 'normally', abs(k), '' if abs(k) == 1 else 's', 'more' if k > 0 else 'fewer'))
            k = 0
            if c == 'native call' and var == 1 and pay != NBR:
                self.bad(f, b, 'break', 'a `break` out of a block given to a builtin is not turned into the result of the builtin')
        dd = {x if isinstance(x, str) else x[0] for x in dirty}
        if c != 'loop' and dd:
            self.bad(f, b, 'stale ' + '/'.join(sorted(dd)), 'returns %s while %s still belong%s to another frame' % ('an error' if var == 1 else 'normally', ', '.join(REGS[x] for x in sorted(dd)), 's' if len(dd) == 1 else ''))
        return (k, z, frozenset(), None, None, None, p if c == 'loop' and p in ('need', 'unknown') else None)

def wanted(ctx, cl):
    """the flag that says whether the result of a call is wanted travels unchanged from the instruction to the new frame, and a
    result that is there at once is treated the same way"""
    p = ctx.p
    uses = {}
    for f in p.fns:
        bools = [a for a in f.args if f.types.get(a) == 'bool']
        if not bools:
            continue
        for b, i, s in f.stmts():
            if s.kind == 'assign' and s.rv.kind == 'use' and s.rv.ops[0].kind == 'const' and re.search(r'::FLG_DISCARD$', s.rv.ops[0].path or s.rv.ops[0].text or ''):
                uses.setdefault(f.key, set()).update(bools)
    if not uses:
        raise AnalysisError('the flag of unwanted results is not set anywhere')
    for k, v in uses.items():
        if len(v) != 1:
            raise AnalysisError('%s: several flags' % k)
    base = {k: set(v) for k, v in uses.items()}
    # polarity of the place where the flag is made
    for k, v in base.items():
        f = p.by_key[k]
        for b in f.blocks:
            t = f.blocks[b].term
            if t.kind != 'switch' or origin(f, t.op)[:2] != ('arg', list(v)[0]):
                continue
            for val, dst in t.targets:
                has = any(s.kind == 'assign' and s.rv.kind == 'use' and re.search(r'::FLG_DISCARD$', s.rv.ops[0].path or s.rv.ops[0].text or '') for s in f.blocks[dst].stmts)
                if has != (val == 0):
                    ctx.bad('wanted', k + ' polarity', '%s marks a result as unwanted when it is wanted' % k, str(t.span))
                else:
                    ctx.ok('wanted', '%s edge %s' % (k, val))
    starts = lambda f: re.search(r'VMResKind|^\(\)$|Result<\(\)', f.types.get(0) or '') is not None
    # functions whose parameter is passed on as the flag
    U = {k: v for k, v in base.items()}
    sites = {}
    change = True
    def flag(f, o):
        if o.kind == 'const':
            return {'true': 'T', 'false': 'F'}.get(o.text)
        r = origin(f, o)
        if r[0] == 'const':
            return {'true': 'T', 'false': 'F'}.get(r[1].text)
        if r[0] == 'arg' and not r[2]:
            return ('P', r[1])
        return None
    while change:
        change = False
        for f in p.fns:
            for b, t in f.calls():
                if not t.func:
                    continue
                for g in p.resolve(t.func, f.crate):
                    for i in U.get(g.key, ()):
                        v = flag(f, t.args[i - 1])
                        sites[(f.key, b)] = (g.key, v, t)
                        if isinstance(v, tuple) and (starts(f) or f.key in base) and v[1] not in U.setdefault(f.key, set()):
                            U[f.key].add(v[1])
                            change = True
    U = {k: v for k, v in U.items() if v}
    # summaries of functions that start a call, without a flag parameter of their own
    def summary(k, seen=()):
        f = p.by_key[k]
        out = set()
        for b, t in f.calls():
            x = sites.get((k, b))
            if x is not None:
                out.add(x[1])
            elif t.func:
                for g in p.resolve(t.func, f.crate):
                    if g.key in starters and g.key not in seen and g.key != k:
                        out |= {v for v in summary(g.key, seen + (k,)) if v in ('T', 'F', None)}
        return out
    starters = {f.key for f in p.fns if re.search(r'VMResKind', f.types.get(0) or '') and '{closure' not in f.key}
    # functions that are handed the flag, whether or not they pass it on
    W = {k: set(v) for k, v in U.items() if k not in base}
    change = True
    while change:
        change = False
        for k in list(W):
            f = p.by_key[k]
            for b, t in f.calls():
                for i, a in enumerate(t.args):
                    v = flag(f, a) if t.func and f.types.get(a.place.local if a.place is not None else None) in ('bool', None) else None
                    if isinstance(v, tuple) and v[1] in W[k]:
                        for g in p.resolve(t.func, f.crate):
                            if g.key not in base and starts(g) and g.types.get(i + 1) == 'bool' and i + 1 not in W.setdefault(g.key, set()):
                                W[g.key].add(i + 1)
                                change = True
    n = 0
    for k in sorted({x[0] for x in sites}):
        f = p.by_key[k]
        if k in base or not starts(f) or k not in W:
            continue
        own = U.get(k, ())
        for (fk, b), (g, v, t) in sorted(sites.items()):
            if fk != k:
                continue
            n += 1
            if v in [('P', i) for i in own]:
                ctx.ok('wanted', '%s -> %s' % (k, g))
            elif g in base and not re.search('VMResKind', f.types.get(0) or ''):
                raise AnalysisError('%s: cannot tell what the flag of a new frame depends on' % k)
            else:
                ctx.bad('wanted', '%s -> %s' % (k, g), '%s is told whether the result is wanted, but starts the call through %s with %s' % (
                    k, g, {'T': '"wanted"', 'F': '"not wanted"', None: 'something else'}.get(v, 'another parameter')), str(t.span))
    # the interpreter loop: a result that is there at once
    def tail(f, b0):
        """number of values put on the operand stack on the ways from a block to the next call of anything else"""
        out, todo, seen = set(), [(b0, 0, ())], set()
        while todo:
            b, m, env = todo.pop()
            if (b, m) in seen:
                continue
            seen.add((b, m))
            env = dict(env)
            for s in f.blocks[b].stmts:
                if s.kind == 'assign' and not s.place.proj and s.rv.kind == 'use':
                    o = s.rv.ops[0]
                    v = o.text if o.kind == 'const' else env.get(o.place.local) if not o.place.proj else None
                    env[s.place.local] = v
            t = f.blocks[b].term
            if t.kind == 'call':
                if re.search(r'::stack_push$', t.func or ''):
                    m += 1
                else:
                    out.add(m)
                    continue
            if t.kind == 'switch':
                v = t.op.text if t.op.kind == 'const' else env.get(t.op.place.local)
                if v in ('true', 'false'):
                    want = int(v == 'true')
                    dst = [d for k, d in t.targets if k == want] or [d for k, d in t.targets if k is None or k == 'otherwise']
                    todo.append((dst[0], m, tuple(sorted(env.items(), key=str))))
                    continue
                out.add(m)
                continue
            if t.kind in ('return',):
                out.add(m)
            for x in t.succ:
                if f.blocks[x].term.kind != 'resume':
                    todo.append((x, m, tuple(sorted(env.items(), key=str))))
        return out
    loops = [p.by_key[k] for k in sorted({x[0] for x in cl.fetches})]
    m = 0
    for f in loops:
        reads = {}
        for b, i, s in f.stmts():
            if s.kind == 'assign':
                for o in s.rv.ops:
                    if o.place is not None and ('as', 'Return') in [tuple(x[:2]) for x in o.place.proj if isinstance(x, tuple)]:
                        reads.setdefault(o.place.local, []).append(b)
        for b, t in f.calls():
            if not t.func:
                continue
            gs = [g for g in p.resolve(t.func, f.crate) if g.key in starters]
            if not gs:
                continue
            x = sites.get((f.key, b))
            want = {x[1]} if x is not None else set().union(*[summary(g.key) for g in gs])
            rb = reads.get(t.dest.local, [])
            if not rb:
                continue
            pushes = set()
            for r in rb:
                pushes |= tail(f, r)
            m += 1
            exp = {'T': {1}, 'F': {0}}
            name = gs[0].key.split('::')[-1]
            if not want:
                ctx.ok('wanted', '%s bb%d: never starts a frame' % (f.key, b))
            elif len(want) == 1 and list(want)[0] in exp:
                if pushes == exp[list(want)[0]]:
                    ctx.ok('wanted', '%s: result of %s' % (f.key, name))
                else:
                    ctx.bad('wanted', '%s: %s' % (f.key, name), 'an instruction starts a call through %s with the result %s, but when the result is there at once it puts %s on the operand stack' % (
                        name, 'wanted' if want == {'T'} else 'not wanted', '/'.join(map(str, sorted(pushes))) + ' values'), str(t.span))
            elif want == {'T', 'F'}:
                ctx.bad('wanted', '%s: %s' % (f.key, name), '%s starts frames whose result is wanted on one path and not wanted on another, whatever the instruction asks for' % name, str(t.span))
            else:
                raise AnalysisError('%s: cannot tell whether the result of %s is wanted' % (f.key, name))
    ctx.seen('calls that pass on whether the result is wanted', n)
    ctx.seen('instructions that start calls', m)
    ctx.floor('calls that pass on whether the result is wanted', 8)
    ctx.floor('instructions that start calls', 15)

def run(ctx):
    cl = Frames(ctx)
    p = ctx.p
    if not cl.natsites:
        raise AnalysisError('no call of a builtin through a function pointer found')
    if not any(x[1] for x in cl.counters.values()) or all(x[1] for x in cl.counters.values()):
        raise AnalysisError('no interpreter loop with a frame counter found')
    roots = []
    for k in sorted(cl.reach):
        f = p.by_key[k]
        if k in cl.natives or k in cl.dynclos or (cl.contract(f) and cl.contract(f) != 'loop') or not cl.callers.get(k):
            roots.append((f, cl.START + ((),)))
    e = Engine(p, cl)
    e.run(roots)
    for x in sorted(cl.nexts):
        ctx.ok('next instruction', x)
    wanted(ctx, cl)
    for x in sorted(cl.exits, key=repr):
        ctx.ok('exit', '%s bb%d %s' % (x[0], x[1], x[2:]))
    ctx.seen('functions analysed', len(e.functions))
    ctx.seen('contexts', len(e.table))
    ctx.seen('builtin calls', len(cl.nat))
    ctx.seen('instruction fetches', len(cl.fetches))
    ctx.seen('frame links', cl.links)
    for k, n in (('invoke', 'functions that start calls'), ('neutral', 'builtins and evaluation helpers'), ('run', 'interpreter loop wrappers')):
        ctx.seen(n, len({x[0] for x in cl.exits if cl.contract(p.by_key[x[0]]) == k}))
    ctx.floor('functions analysed', 150)
    ctx.floor('functions that start calls', 20)
    ctx.floor('builtins and evaluation helpers', 60)
    ctx.floor('builtin calls', 1)
    ctx.floor('instruction fetches', 1)
    ctx.floor('interpreter loop wrappers', 1)
    ctx.floor('frame links', 1)
    if e.merged:
        raise AnalysisError('state limit reached in %s' % sorted(e.merged))
    ctx.notes.append('contracts: a builtin or evaluation helper leaves as many frames as it found; a function that starts a call leaves one '
                     'more exactly when it returns Ok(Invoke); the loop wrapper removes exactly the frame it was called for')
    ctx.assume('a call through a function pointer or dyn closure behaves like the builtins and closures analysed here: it leaves the frames it found')
    ctx.assume('an error that comes out of a call made by the interpreter loop is not a `break`: BREAK is only compiled into blocks and builtins turn it into their result')
    ctx.assume('a panic ends the process, so paths through panics are not followed')
