"""Symbolic stack machine on top of the abstract interpreter: the arms of the interpreter loop, run one opcode at a time on an abstract operand
stack, and the compiler, run on abstract syntax nodes with the emitted instructions recorded. Shared by P15 and the integer rules."""
import re
from program import AnalysisError, simple
from flow import const_value, eval_const
import absint, facts
from absint import Interp, St, Limit

UNIT = ('agg', None, 'tuple', ())

class StackOps(Interp):
    """operand stack operations are performed on St.stack; returns the hook result or None"""
    def stackop(self, st, f, t, g, args):
        if g is None:
            return None
        if g.self_type == 'RubyStack' or g.self_type == 'VM' and g.name == 'sp':
            n = g.name
            R = lambda v: [(st, ('ret', v))]
            if n == 'sp':
                return R(('o', ('sp', 0)))
            if n == 'push':
                st.stack = st.stack + (self.val(st, args[1]),)
                return R(UNIT)
            if n in ('pop', 'pop2'):
                k = 1 if n == 'pop' else 2
                if len(st.stack) < k:
                    return [(st, ('panic', 'operand stack underflow', (f.key, t.span)))]
                v = st.stack[-k:]
                st.stack = st.stack[:-k]
                return R(v[0] if k == 1 else ('agg', None, 'tuple', tuple(v)))
            if n in ('remove', 'insert', 'extend_from_within_ptr', 'last', 'len'):
                if n == 'len':
                    return R(absint.num(len(st.stack)))
                if n == 'last':
                    return R(st.stack[-1])
                p = self.val(st, args[1])
                if p[0] != 'o' or p[1][0] != 'sp' or not -len(st.stack) <= p[1][1] <= 0:
                    raise Limit('stack address')
                i = len(st.stack) + p[1][1]
                if n == 'remove':
                    v = st.stack[i]
                    st.stack = st.stack[:i] + st.stack[i + 1:]
                    return R(v)
                if n == 'insert':
                    st.stack = st.stack[:i] + (self.val(st, args[2]),) + st.stack[i:]
                    return R(UNIT)
                k = absint.aconst(self.as_int(st, self.val(st, args[2]), 'usize'))
                if k is None or i + k > len(st.stack):
                    raise Limit('stack copy')
                st.stack = st.stack + st.stack[i:i + k]
                return R(UNIT)
        if g.self_type == 'StackPtr' and g.trait in ('Add', 'Sub') and g.name in ('add', 'sub') and len(args) == 2:
            p = self.val(st, args[0])
            k = self.val(st, args[1])
            if p[0] == 'o' and p[1][0] == 'sp' and k[0] == 'int' and absint.aconst(k[1]) is not None:
                return [(st, ('ret', ('o', ('sp', p[1][1] + (absint.aconst(k[1]) if g.name == 'add' else -absint.aconst(k[1]))))))]
            if p[0] == 'o' and p[1][0] == 'sp':
                raise Limit('stack address')
        return None

class Machine(StackOps):
    """runs arms of the interpreter loop"""
    def __init__(self, p):
        super().__init__(p)
        fs = p.find('VM', 'run_context_main')
        cands = [f for f in p.fns if f.self_type == 'VM' and f.blocks and any(b.term.kind == 'switch' and len(b.term.targets) > 80 for b in f.blocks.values())]
        if len(cands) != 1:
            raise AnalysisError('interpreter loop not found')
        self.loop = cands[0]
        self.dblock = [i for i, b in self.loop.blocks.items() if b.term.kind == 'switch' and len(b.term.targets) > 80][0]
        self.arms = {k: x for k, x in self.loop.blocks[self.dblock].term.targets if k is not None}
        self.stops = self.heads()
        self.readers = {f.key: f for f in p.fns if f.self_type == 'ISeqPtr' and f.trait is None and re.match(r'read', f.name)}
        if len(self.readers) < 4:
            raise AnalysisError('operand readers not found')
        self.calls = facts.call_graph(p)
        # calls that may run Ruby code or the collector are not entered
        core = {self.loop.key} | {k for k, cs in self.calls.items() if self.loop.key in cs}
        self.noenter = set(core)
        for f in p.fns:
            if f.name in ('exec_native', 'exec_func', 'gc') or f.name.startswith('invoke_send') or f.name.startswith('eval_send'):
                self.noenter.add(f.key)
        self.imm = []
    def heads(self):
        f = self.loop
        order, state = [], {}
        heads = set()
        stack = [(0, iter(f.succs(0)))]
        state[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if state.get(s) == 1:
                    heads.add(s)
                elif s not in state:
                    state[s] = 1
                    stack.append((s, iter(f.succs(s))))
                    break
            else:
                state[b] = 2
                stack.pop()
        reach = {b: self.reach(f, b) for b in heads}
        return {h for h in heads if self.dblock in reach[h] and h in self.reach(f, self.dblock)} | {self.dblock}
    @staticmethod
    def reach(f, b):
        seen, work = set(), list(f.succs(b))
        while work:
            x = work.pop()
            if x not in seen:
                seen.add(x)
                work.extend(f.succs(x))
        return seen
    def inline(self, g, depth):
        return g.key not in self.noenter
    def hook(self, st, f, t, g, args, fname):
        if g is None:
            return None
        if g.self_type == 'IdentId' and g.name in ('get_id', 'get_id_from_string') and args:
            v = self.val(st, args[0])
            c = v[1] if v[0] == 'o' else None
            while c and c[0] == '*' and len(c) == 2:
                c = c[1]
            if c and c[0] == 'c' and isinstance(c[1], str):
                return [(st, ('ret', ('o', ('ident', c[1].strip('"')))))]
            return [(st, ('ret', ('o', ('ident', c or v))))]
        if g.self_type == 'IdentId' and g.trait == 'From' and args and self.val(st, args[0])[0] == 'o' and self.val(st, args[0])[1][0] == 'ident':
            return [(st, ('ret', self.val(st, args[0])))]
        if g.key in self.readers:
            q = st.facts.get('operands', ())
            if not q:
                return [(st, ('panic', 'reads more operands than the compiler wrote', (f.key, t.span)))]
            st.facts['operands'] = q[1:]
            v = q[0]
            ty = f.types.get(t.dest.local)
            if v[0] in ('int', 'bits') and ty in absint.RANGE:
                e = v[1]
                lo, hi = self.rng(st, e)
                r = absint.RANGE[ty]
                return [(st, ('ret', ('int', e) if r[0] <= lo and hi <= r[1] else ('bits', e)))]
            return [(st, ('ret', v if v[0] not in ('int', 'bits') else ('o', ('operand', absint.term(v)))))]
        if g.self_type == 'ISeqPtr' and g.name in ('add_assign', 'sub_assign'):
            st.eff('jump', g.name, self.dterm(st, args[1]))
            return [(st, ('ret', UNIT))]
        return self.stackop(st, f, t, g, args)
    def step(self, st, op, operands):
        """-> [(state, outcome)] of one instruction; outcome ('stop', b) means the next instruction follows"""
        if op not in self.arms:
            raise Limit('no handler')
        st.facts['operands'] = tuple(operands)
        self.opaque_fns.clear()
        r = self.run(self.loop, [('o', ('vm',)), ('o', ('count',))][:len(self.loop.args)], st, 0, start=self.arms[op], stop=self.stops, callstack=(self.loop.key,))
        out = []
        for s, o in r:
            if o[0] == 'cut':
                raise Limit('loop in %s' % o[1])
            if o[0] == 'stop' and o[1] != self.dblock and s.facts['operands'] and not any(e[0] == 'jump' for e in s.effects):
                pass
            out.append((s, o))
        return out

class Compiler(Interp):
    """runs the code generator on abstract nodes; emission is recorded as effects ('gen', node term) and ('emit', bytes written, value)"""
    def __init__(self, p, writers):
        super().__init__(p)
        self.writers = writers          # key -> bytes appended
        self.gen = p.find('Codegen', 'gen')[0]
        self.subject = None
    def inline(self, g, depth):
        return self.emits(g) or g.crate != self.gen.crate or len(g.blocks) < 12
    def hook(self, st, f, t, g, args, fname):
        if g is not None and g.key in self.writers:
            st.eff('emit', self.writers[g.key], self.val(st, args[1]))
            return [(st, ('ret', UNIT))]
        if g is not None and g.self_type == 'Codegen' and g.key == self.gen.key:
            node = self.dterm(st, args[3])
            st.eff('gen', node, self.dterm(st, args[4]))
            ok, er = st, st.copy()
            tm = ('genresult', len(st.effects))
            return [(st, ('ret', ('agg', 'Ok', 'Result', (UNIT,))))]
        if g is not None and g.self_type == 'Codegen' and simple(g.types.get(0) or '') == '()' and not self.emits(g):
            return [(st, ('ret', UNIT))]
        if g is None and fname:
            v0 = self.val(st, args[0]) if args else None
            if v0 is not None and v0[0] == 'agg' and v0[2] == 'vec':
                last = absint.callee_last(fname)
                if last == 'len':
                    return [(st, ('ret', absint.num(len(v0[3]))))]
                if last == 'is_empty':
                    return [(st, ('ret', ('bool', not v0[3])))]
                if last in ('index', 'index_mut', 'get_unchecked', 'remove', 'swap_remove', 'pop') and len(v0[3]) == 1:
                    return [(st, ('ret', v0[3][0] if last != 'pop' else ('agg', 'Some', 'Option', (v0[3][0],))))]
                if last in ('first', 'last', 'get') and len(v0[3]) == 1:
                    return [(st, ('ret', ('agg', 'Some', 'Option', (v0[3][0],))))]
                if last in ('clone', 'as_slice', 'deref', 'deref_mut', 'as_ref', 'borrow'):
                    return [(st, ('ret', v0))]
        return None
    def emits(self, g):
        r = getattr(self, '_em', None)
        if r is None:
            r = self._em = facts.reach_callers(self.p, set(self.writers))
        return g.key in r

def writers(p):
    """ISeq methods that append a fixed number of bytes -> that number"""
    from rules import p05
    e = p05.Encode(p, {}, {})
    return {k: v[0] for k, v in e.pushes.items()}

def instructions(st, size):
    """effects of a compiler path -> [('gen', node) | ('op', opcode, [operand values])] or None"""
    out, cur, left = [], None, 0
    for e in st.effects:
        if e[0] == 'gen':
            if left:
                return None
            out.append(('gen', e[1], e[2]))
        elif e[0] == 'emit':
            if left == 0:
                c = absint.aconst(e[2][1]) if e[2][0] in ('int', 'bits') else None
                if c is None or c not in size:
                    return None
                cur = ('op', c, [])
                out.append(cur)
                left = size[c] - 1
            else:
                cur[2].append(e[2])
                left -= e[1]
                if left < 0:
                    return None
    return out if left == 0 else None

def inst_table(p):
    from rules import p05
    names = {}
    for f in p.fns:
        if f.kind != 'fn' and f.self_type == 'Inst':
            v = eval_const(p, f)
            if isinstance(v, int):
                names.setdefault(v, f.name)
    sz = p.find('Inst', 'inst_size')
    if len(sz) != 1 or len(names) < 80:
        raise AnalysisError('instruction table not found')
    size = {}
    for v in range(256):
        r = p05.run_inst_size(p, sz[0], v)
        if isinstance(r, int):
            size[v] = r
    return names, size

# ---------------------------------------------------------------- comparison of paths
def merge(it, a, b):
    """state of path a with everything path b assumed; None when the two paths exclude each other"""
    s = a.copy()
    for sym, ks in b.kinds.items():
        if sym in s.kinds:
            if not it.setkinds(s, ('V', sym), ks):
                return None
        else:
            s.kinds[sym] = ks
    for d, (lo, hi) in b.bounds.items():
        e = d if isinstance(d, tuple) and len(d) == 2 and isinstance(d[0], int) else absint.asym(d)
        if not it.setrng(s, e, lo, hi):
            return None
    for k, v in b.facts.items():
        if isinstance(k, tuple) and k[0] == 'disc':
            if s.facts.get(k, v) != v or v in s.facts.get(('notvar', k[1]), ()):
                return None
            s.facts[k] = v
        elif isinstance(k, tuple) and k[0] == 'notvar':
            if s.facts.get(('disc', k[1])) in v:
                return None
    for k, v in b.facts.items():
        if isinstance(k, tuple) and k[0] == 'b':
            if not it.assume(s, k[1], v):
                return None
    return s

def normal(it, st, t):
    """term with facts of st applied: decided booleans and determined integers are replaced"""
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] in ('bool', 'Vb') and not isinstance(t[1], bool):
            d = decide(it, st, t[1])
            if d is not None:
                return (t[0], d)
        if len(t) == 2 and t[0] == 'V' and t[1] in st.kinds and len(st.kinds[t[1]]) == 1:
            k = next(iter(st.kinds[t[1]]))
            if k == 'NIL':
                return ('Vn',)
            if k in ('TRUE', 'FALSE'):
                return ('Vb', k == 'TRUE')
            if k == 'FIX':
                return ('Vi', absint.asym(('n', t[1])))
        if len(t) == 2 and isinstance(t[0], int) and isinstance(t[1], tuple):
            lo, hi = it.rng(st, t)
            if lo == hi:
                return (lo, ())
        return tuple(normal(it, st, x) for x in t)
    return t

def decide(it, st, b):
    if isinstance(b, bool):
        return b
    if b[0] == 'not':
        r = decide(it, st, b[1])
        return None if r is None else not r
    if ('b', b) in st.facts:
        return st.facts[('b', b)]
    y, n = st.copy(), st.copy()
    fy, fn = it.assume(y, b, True), it.assume(n, b, False)
    if fy and not fn:
        return True
    if fn and not fy:
        return False
    return None
