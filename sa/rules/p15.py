"""Specialised instructions. The code generator is interpreted on abstract operator and index nodes; emission paths that put an Integer literal
into an instruction, or that fuse a comparison with a conditional jump, are paired with the path that emits the general instruction for the
same node. Both emitted sequences are then executed by the symbolic stack machine (the handlers in the interpreter loop, and what they call)
for every kind of left operand, with the literal as a symbolic integer over its whole encodable range. Obligation: on every pair of paths that
can be taken by the same operands the results, the operand stack, the methods called with which arguments in which order, the jumps taken
and the errors are the same."""
import re
from program import AnalysisError, simple
import absint, vmexec
from absint import St, Limit

NODE = re.compile(r'^(ruruby_parse::)?(\w+::)*Annot<')

def child_int(t):
    """node term whose Integer payload the literal symbol reads"""
    return t

def lit_syms(v):
    out = set()
    def walk(t):
        if isinstance(t, tuple):
            if len(t) >= 3 and t[0] == 'fld' and isinstance(t[1], tuple) and t[1][0] == 'as' and t[1][2] == 'Integer':
                out.add(t)
            for x in t:
                walk(x)
    walk(v)
    return out

def node_of(sym):
    """the child node a literal belongs to: ('fld', ('as', ('fld', node, k), 'Integer'), 0)"""
    t = sym[1][1]
    return t[1] if t[0] == 'fld' else t

def tests_kind(f, a):
    """does f look at the kind of its node argument itself?"""
    for b in f.blocks.values():
        for x in b.stmts:
            if x.kind == 'assign' and x.rv.kind == 'discr':
                pl = x.rv.ops[0].place
                if pl.local == a:
                    return True
    return False

class Emission:
    def __init__(self, where, ins, st, lits, ints):
        self.where, self.ins, self.st, self.lits, self.ints = where, ins, st, lits, ints

def strip(n):
    def find(t):
        if isinstance(t, tuple) and t and t[0] == 'agg':
            return None
        if isinstance(t, tuple):
            if len(t) == 2 and t[0] == 'node':
                return t
            for x in t:
                r = find(x)
                if r:
                    return r
        return None
    return find(n) or n

def emissions(ctx, comp, size, f, node_pos, node, flags):
    st = St()
    args = []
    k = 0
    for i, a in enumerate(f.args):
        ty = f.types[a]
        if i == node_pos:
            args.append(node)
        elif ty == 'bool':
            args.append(('bool', flags))
        elif NODE.match(ty):
            args.append(('o', ('node', 'arg%d' % i)))
        else:
            args.append(('o', ('arg', i)))
    comp.opaque_fns.clear()
    try:
        rs = comp.run(f, args, st, callstack=(f.key,))
    except Limit as e:
        return None
    out = []
    kindvar = comp.enums['NodeKind'].index('Integer')
    for s, o in rs:
        if o[0] == 'cut':
            return None
        if o[0] != 'ret' or o[1][0] == 'agg' and o[1][1] == 'Err':
            continue
        ins = vmexec.instructions(s, size)
        if ins is None:
            continue
        lits = set()
        for x in ins:
            if x[0] == 'op':
                for v in x[2]:
                    lits |= lit_syms(v)
        ints = {strip(node_of(('fld', ('as', k[1], 'Integer'), 0))) for k, v in s.facts.items() if isinstance(k, tuple) and k[0] == 'disc' and v == kindvar}
        out.append(Emission(f.key, ins, s, lits, ints))
    return out

def variants(ctx, comp):
    ops = comp.enums['BinOp']
    # Opaque children are single terms
    for op in ops:
        kind = ('agg', 'BinOp', 'NodeKind', (('agg', op, 'BinOp', ()), ('o', ('node', 'lhs')), ('o', ('node', 'rhs'))))
        yield op, ('agg', None, 'Annot', (kind, ('o', ('loc',))))
    fields = None
    for it in ctx.p.items.get('NodeKind', []):
        for n, fl in it.variants:
            if n == 'Index':
                fields = [x for x in fl]
    if not fields:
        raise AnalysisError('index node not found')
    vals = []
    for i in range(len(fields)):
        vals.append(None)
    vec = ('agg', None, 'vec', (('o', ('node', 'index')),))
    names = [x[0] if isinstance(x, (tuple, list)) else x for x in fields]
    vals = tuple(vec if 'Vec' in str(x) else ('o', ('node', 'base')) for x in fields)
    kind = ('agg', 'Index', 'NodeKind', vals)
    yield 'Index', ('agg', None, 'Annot', (kind, ('o', ('loc',))))

def execute(mach, ins, lits, kindof):
    """run an emitted sequence; lits: literal child node -> affine value; kindof: node -> kinds"""
    st = St()
    for i in range(4):
        t = ('below', i)
        st.kinds[t] = absint.IMM - {'UNINIT'} | mach.heap
        st.stack = st.stack + (('V', t),)
    for a, lo, hi in kindof['bounds']:
        st.bounds[a] = (lo, hi)
    cur = [(st, ('stop', None))]
    done = []
    for x in ins:
        nxt = []
        for s, o in cur:
            if x[0] == 'gen':
                n = strip(x[1])
                if n in lits:
                    s.stack = s.stack + (('Vi', lits[n]),)
                else:
                    t = ('value', n)
                    s.kinds[t] = kindof.get(n, absint.IMM - {'UNINIT'} | mach.heap)
                    s.stack = s.stack + (('V', t),)
                    s.eff('eval', n)
                nxt.append((s, o))
            else:
                for s2, o2 in mach.step(s, x[1], x[2]):
                    if o2[0] == 'stop':
                        nxt.append((s2, o2))
                    else:
                        done.append((s2, o2))
                if len(nxt) + len(done) > 600:
                    raise Limit('paths')
        cur = nxt
    return done + cur

def observe(mach, s, o):
    eff = tuple(e for e in s.effects if e[0] != 'event')
    oo = o
    if o[0] == 'stop':
        oo = ('next', o[1] if any(e[0] == 'jump' for e in eff) is None else None)
    elif o[0] == 'panic':
        oo = ('panic',)
    else:
        oo = ('ret', mach.dterm(s, o[1]))
    return (oo, tuple(mach.dterm(s, v) for v in s.stack), eff)

def show(names, ins):
    def one(x):
        if x[0] == 'gen':
            n = strip(x[1])
            return '<%s>' % (n[1] if isinstance(n, tuple) and n[0] == 'node' else '..')
        return names.get(x[1], str(x[1]))
    return ' '.join(one(x) for x in ins)

def describe(mach, s, o):
    calls = [e[1].split('::')[-1] for e in s.effects if e[0] == 'call']
    c = (' after calling ' + ', '.join(calls)) if calls else ''
    if o[0] == 'panic':
        return 'aborts (%s)' % o[1] + c
    if o[0] == 'ret':
        v = o[1]
        return 'ends with %s' % (short(v)) + c
    j = [e for e in s.effects if e[0] == 'jump']
    return ('jumps' if j else 'leaves %s' % short(s.stack[-1] if s.stack else None)) + c

def short(v):
    t = re.sub(r"\s+", ' ', str(v))
    t = t.replace("('fld', ('as', ('fld', ('node', 'rhs'), 0), 'Integer'), 0)", 'literal')
    return t if len(t) < 160 else t[:160] + '..'

def compare(ctx, mach, names, what, a, b, na, nb, bounds_of):
    """sequences a (special) and b (general)"""
    pass

SPELL = {'Add': '+', 'Sub': '-', 'Mul': '*', 'Div': '/', 'Rem': '%', 'Exp': '**', 'Shr': '>>', 'Shl': '<<', 'BitAnd': '&', 'BitOr': '|', 'BitXor': '^',
         'Eq': '==', 'Ne': ('==', '!='), 'Gt': '>', 'Ge': '>=', 'Lt': '<', 'Le': '<=', 'Cmp': '<=>'}

def expected(it, st, op, k):
    """result of the operator on two operands of the same immediate kind, or None where the result has no closed form here"""
    l, r = ('value', ('node', 'lhs')), ('value', ('node', 'rhs'))
    if k == 'FIX':
        x, y = absint.asym(('n', l)), absint.asym(('n', r))
        if op == 'Add':
            return ('Vi', absint.aadd(x, y))
        if op == 'Sub':
            return ('Vi', absint.aadd(x, y, -1))
        c = {'Eq': 'eq', 'Ne': 'ne', 'Gt': 'gt', 'Ge': 'ge', 'Lt': 'lt', 'Le': 'le'}.get(op)
        return ('Vb', it.icmp(st, c, x, y)) if c else None
    x, y = ('fl', l), ('fl', r)
    a = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Div': 'div'}.get(op)
    if a:
        return ('Vf', (a, x, y))
    return {'Lt': ('Vb', ('flt', 'lt', x, y)), 'Gt': ('Vb', ('flt', 'lt', y, x)), 'Le': ('Vb', ('flt', 'le', x, y)), 'Ge': ('Vb', ('flt', 'le', y, x))}.get(op)

def has_call(t):
    return isinstance(t, tuple) and bool(t) and (t[0] == 'call' or any(has_call(x) for x in t))

def meaning(ctx, p, mach, names, comp, table, genkey, gi):
    from rules import p19
    ids = {v: p19.OPS.get(n, n.strip('_').lower()) for n, (v, f) in p19.consts_of(p, 'IdentId', 'IdentId').items()}
    L, R = ('node', 'lhs'), ('node', 'rhs')
    for op, spell in sorted(SPELL.items()):
        spell = (spell,) if isinstance(spell, str) else spell
        es = [e for e in table.get((genkey, gi, op, True), []) if not e.lits]
        uniq = {str(e.ins): e for e in es}
        for e in uniq.values():
            inst = '+'.join(names.get(x[1], str(x[1])) for x in e.ins if x[0] == 'op')
            for k in ('FIX', 'FLO'):
                try:
                    rs = execute(mach, e.ins, {}, {'bounds': [], L: frozenset([k]), R: frozenset([k])})
                except Limit as x:
                    ctx.seen('undecided', 1)
                    continue
                want = expected(mach, St(), op, k)
                if want is None:
                    continue
                for s, o in rs:
                    if o[0] != 'stop' or any(e2[0] == 'call' for e2 in s.effects):
                        continue
                    got = vmexec.normal(mach, s, mach.dterm(s, s.stack[-1])) if s.stack else None
                    w = vmexec.normal(mach, s, want)
                    if got == w or k == 'FLO' and op in ('Eq', 'Ne'):
                        ctx.ok('meaning', '%s on %s operands' % (op, k))
                    elif has_call(got):
                        ctx.seen('undecided', 1)
                    else:
                        ctx.bad('meaning', '%s:%s:%s' % (op, inst, k), '%s on two operands of kind %s leaves %s' % (inst, k, short(got)), e.where)
            try:
                rs = execute(mach, e.ins, {}, {'bounds': [], L: frozenset(['ORDINARY'])})
            except Limit as x:
                ctx.seen('undecided', 1)
                continue
            sends = set()
            for s, o in rs:
                for e2 in s.effects:
                    if e2[0] == 'call' and 'send' in e2[1].split('::')[-1]:
                        nm = [x for x in e2[2] if isinstance(x, tuple) and (x[0] == 'int' and not x[1][1] or x[0] == 'ident')]
                        text = None
                        if nm:
                            text = nm[0][1] if nm[0][0] == 'ident' else ids.get(nm[0][1][0], '?')
                        vals = tuple(x[1][1][1] for x in e2[2] if isinstance(x, tuple) and x[0] == 'V' and x[1][0] == 'value')
                        sends.add((text, vals))
            if not sends:
                ctx.bad('fallback', '%s:%s' % (op, inst), '%s on an ordinary object calls no method' % inst, e.where)
            for text, vals in sends:
                if text is None:
                    ctx.seen('undecided', 1)
                elif text in spell and vals == ('lhs', 'rhs'):
                    ctx.ok('fallback', '%s calls %s on its left operand with its right operand' % (inst, text))
                else:
                    ctx.bad('fallback', '%s:%s:%s' % (op, inst, text), '%s on an ordinary object calls %s with operands %s instead of %s on the left operand with the right' % (
                        inst, text, vals, spell[0]), e.where)
    ctx.floor('fallback', 12)
    ctx.floor('meaning', 15)

def run(ctx):
    import os
    DBG = os.environ.get('DBG15')
    p = ctx.p
    names, size = vmexec.inst_table(p)
    comp = vmexec.Compiler(p, vmexec.writers(p))
    mach = vmexec.Machine(p)
    emitters = []
    for f in p.fns:
        if f.self_type == 'Codegen' and f.kind == 'fn' and f.blocks and comp.emits(f):
            for i, a in enumerate(f.args):
                if NODE.match(f.types[a]) and tests_kind(f, a):
                    emitters.append((f, i))
    if len(emitters) < 3:
        raise AnalysisError('code generator methods not found')
    # what a jump emitter does with a condition it does not know
    jumpers = {f.key for f, i in emitters if re.search(r'Result<[\w:]*ISeqPos', f.types[0])}
    table = {}
    for f, i in emitters:
        for what, node in variants(ctx, comp):
            for fl in ((True, False) if any(f.types[a] == 'bool' for a in f.args) else (True,)):
                es = emissions(ctx, comp, size, f, i, node, fl)
                if es is None:
                    continue
                uniq = {}
                for e in es:
                    uniq.setdefault((str(e.ins), frozenset(e.ints)), e)
                table[f.key, i, what, fl] = list(uniq.values())
    pairs = []
    suffix = {}
    for f, i in emitters:
        if f.key in jumpers:
            es = emissions(ctx, comp, size, f, i, ('agg', None, 'Annot', (('agg', 'SelfValue', 'NodeKind', ()), ('o', ('loc',)))), True)
            if es and len(es) == 1 and es[0].ins and es[0].ins[0][0] == 'gen':
                suffix[f.key] = es[0].ins[1:]
    gen = comp.gen
    gi = [i for f, i in emitters if f.key == gen.key][0]
    for (k, i, what, fl), es in sorted(table.items(), key=str):
        if k in jumpers:
            if k not in suffix:
                raise AnalysisError('%s: cannot tell what it emits for a plain condition' % k)
            ref = [e for e in table.get((gen.key, gi, what, True), []) if not e.lits]
            for e in es:
                plain = [x for x in e.ins if x[0] == 'gen']
                if len(e.ins) and len(plain) == 1 and strip(plain[0][1])[0] != 'node' and len(e.ins) == 1 + len(suffix[k]):
                    continue               # the whole condition is compiled on its own
                for g in ref:
                    if e.lits:
                        if not {strip(node_of(x)) for x in e.lits} <= g.ints:
                            continue
                    elif g.ints != e.ints:
                        continue
                    pairs.append((what, e, g, g.ins + suffix[k]))
        else:
            for e in es:
                if not e.lits or not {strip(node_of(x)) for x in e.lits} <= {('node', n) for n in ('lhs', 'rhs', 'index')}:
                    continue
                gs = [g for g in es if not g.lits and {strip(node_of(x)) for x in e.lits} <= g.ints]
                for g in gs:
                    pairs.append((what, e, g, g.ins))
                if not gs and es:
                    ctx.notes.append('%s %s: no general form for %s' % (k, what, show(names, e.ins)))
    seen = {}
    def trim(a, b):
        while a and b and a[-1][0] == 'op' and a[-1] == b[-1] and names.get(a[-1][1]) == 'POP':
            a, b = a[:-1], b[:-1]
        return a, b
    for what, e, g, gins in pairs:
        e.ins, gins = trim(e.ins, gins)
        key = (what, str(e.ins), str(gins))
        if key in seen:
            continue
        seen[key] = (what, e, g, gins)
    for what, e, g, gins in seen.values():
        if DBG:
            print(e.where, what, show(names, e.ins), '=', show(names, gins), e.lits, e.ints)
            continue
        label = '%s: %s = %s' % (what, show(names, e.ins), show(names, gins))
        lits = {strip(node_of(x)): absint.asym(x) for x in e.lits}
        bounds = [(x,) + tuple(e.st.bounds.get(x, (-2**63, 2**63 - 1))) for x in e.lits]
        # the immediate is the literal itself
        good = True
        for x in e.ins:
            if x[0] == 'op':
                for v in x[2]:
                    if lit_syms(v) and not (v[0] in ('int', 'bits') and len(v[1][1]) == 1 and v[1][0] == 0 and v[1][1][0][0] in e.lits and v[1][1][0][1] == 1):
                        good = False
                        ctx.bad('immediate', '%s:%s' % (what, names.get(x[1], x[1])), 'the operand written with %s is not the Integer literal of the source but %s' % (
                            names.get(x[1], x[1]), short(v)), e.where)
        if not good:
            continue
        first = next((strip(x[1]) for x in e.ins if x[0] == 'gen'), None)
        for kind in sorted((absint.IMM - {'UNINIT'}) | mach.heap):
            ko = {'bounds': bounds}
            if first is not None:
                ko[first] = frozenset([kind])
            try:
                ra = execute(mach, e.ins, lits, ko)
                rb = execute(mach, gins, lits, ko)
            except Limit as x:
                ctx.seen('undecided', 1)
                ctx.notes.append('undecided: %s on %s: %s' % (label, kind, x))
                continue
            oa = [(s, o, observe(mach, s, o)) for s, o in ra]
            ob = [(s, o, observe(mach, s, o)) for s, o in rb]
            bad = None
            for s1, o1, v1 in oa:
                for s2, o2, v2 in ob:
                    if v1 == v2:
                        continue
                    m = vmexec.merge(mach, s1, s2)
                    if m is None:
                        continue
                    if vmexec.normal(mach, m, v1) == vmexec.normal(mach, m, v2):
                        continue
                    bad = bad or ((s1, o1, v1), (s2, o2, v2))
            ctx.seen('kind', 1)
            item = '%s / %s' % (label, kind)
            if bad:
                (s1, o1, v1), (s2, o2, v2) = bad
                ops = [names.get(x[1], x[1]) for x in e.ins if x[0] == 'op']
                ctx.bad('equivalent', '%s:%s:%s' % (what, '+'.join(ops), kind), 'with a left operand of kind %s, %s %s, but %s %s' % (
                    kind, show(names, e.ins), describe(mach, s1, o1), show(names, gins), describe(mach, s2, o2)), e.where)
            else:
                ctx.ok('equivalent', item)
    if not DBG:
        meaning(ctx, p, mach, names, comp, table, gen.key, gi)
    ctx.seen('pairs of instruction sequences', len(seen))
    ctx.seen('functions interpreted', len(mach.functions | comp.functions))
    ctx.assume('primitive tests and conversions of Value (is_fnum, as_flonum, rvalue, fixnum, integer, ..) mean what their names say; a call that may run Ruby code is one observable event with its arguments')
    ctx.floor('equivalent', 300)
