"""Exact integers, by abstract interpretation of MIR with symbolic integers.
 (A) Operators. The instruction sequence the compiler emits for each operator, and each Integer builtin with a closed form, is interpreted for
     every combination of operand classes (small and arbitrary-precision; negative, zero, positive). Obligation: every path yields the
     mathematical result of the operation, as an exact term over the two operands; division by zero raises ZeroDivisionError; no path aborts.
 (B) Every builtin is interpreted with arguments that are Integers of either representation. Obligation: no machine operation on a value derived
     from the program's integers can overflow, wrap, lose bits, or divide by zero, and no Float is forced into a machine integer by saturation.
     Loops are generalised at their head, so the verdict covers any number of turns.
 (C) The encoding of small integers: the bit-level definitions of fixnum packing, unpacking and its range test are evaluated over symbolic
     bits and must be inverse to each other exactly on the range; both Integer constructors leave the small form for exactly the other values."""
import itertools, math, re
from multiprocessing import Pool
from program import AnalysisError, simple
import absint, bits, ruby, vmexec
from absint import Interp, St, Limit, asym, aadd, ascale, aconst

def num(n):
    return (n, ())


FMAX, FMIN = 2**62 - 1, -2**62
CLASSES = {'small>0': ('FIX', 1, FMAX), 'zero': ('FIX', 0, 0), 'small<0': ('FIX', FMIN, -1), 'big>0': ('BIGNUM', FMAX + 1, absint.INF), 'big<0': ('BIGNUM', -absint.INF, FMIN - 1)}

# (function, kind of event, operation) that cannot happen, with the reason
EXEMPT = {
    ('safe_lcm', 'wrap', 'abs'): 'the least common multiple of two 63-bit integers is never exactly 2**63',
    ('decode', 'wrap', 'Shl'): 'packs the address of a heap object, not an integer of the program',
    ('get_location', 'assert', 'compute'): 'adds up positions within a source text',
    ('time::add', 'saturate', 'i64'): 'an offset in nanoseconds, saturated at 292 years; not an Integer of the program',
    ('time::sub', 'saturate', 'i64'): 'an offset in nanoseconds, saturated at 292 years; not an Integer of the program',
    ('pack', 'trunc', 'i8'): 'Array#pack keeps the low byte by definition',
}
TRUSTED = {'safe_gcd': 'greatest common divisor of two machine integers (binary algorithm; its loop invariant is out of reach of this analysis)'}

class Arith(Interp):
    """interpreter of builtins whose positional arguments are symbolic"""
    widen = True
    relational = True
    LENMAX = 2**47
    akinds = frozenset(['FIX', 'BIGNUM'])
    def hook(self, st, f, t, g, args, fname):
        if g is None:
            return None
        if g.self_type == 'VM' and g.trait == 'Index' and g.name == 'index':
            i = self.val(st, args[1])
            s = ('arg', aconst(i[1]) if i[0] == 'int' else None)
            st.kinds.setdefault(s, self.akinds)
            return [(st, ('ret', ('V', s)))]
        if g.self_type == 'Args2' and g.name == 'len':
            st.bounds.setdefault(('argc',), (0, 8))
            return [(st, ('ret', ('int', asym(('argc',)))))]
        return primitives(self, st, f, t, g, args)
    def inline(self, g, depth):
        if any('&mut' in (g.types.get(x) or '') and simple(g.types.get(x)) == 'VM' for x in g.args):
            return g.key in self.okvm or bool(re.match(r'(\w+::)*builtin::', g.key)) or g.self_type == 'Value' or 'arith' in g.key
        return True

def primitives(it, st, f, t, g, args):
    """arithmetic primitives whose meaning is established elsewhere (C) or taken on trust"""
    if g.name == 'safe_gcd' and len(args) == 2:
        xs = [it.val(st, a) for a in args]
        if all(x[0] == 'int' for x in xs):
            a, b = sorted((x[1] for x in xs), key=repr)
            s = ('gcd', a, b)
            nz = any(it.rng(st, x)[0] > 0 or it.rng(st, x)[1] < 0 or it.assume(st.copy(), it.icmp(st, 'eq', x, (0, ())), True) is False for x in (a, b))
            st.bounds[s] = (1 if nz or st.bounds.get(s, (0, 0))[0] else 0, 2**62)
            return [(st, ('ret', ('Vi', asym(s))))]
    if g.self_type == 'Value' and g.name == 'get_class_name':
        return [(st, ('ret', ('o', ('classname',))))]
    if g.self_type == 'Value' and g.name == 'is_i63' and len(args) == 1:
        v = it.val(st, args[0])
        if v[0] == 'int':
            lo, hi = it.rng(st, v[1])
            if FMIN <= lo and hi <= FMAX:
                return [(st, ('ret', ('bool', True)))]
            if lo > FMAX or hi < FMIN:
                return [(st, ('ret', ('bool', False)))]
            out = []
            for a, b, r in ((FMIN, FMAX, True), (FMAX + 1, absint.INF, False), (-absint.INF, FMIN - 1, False)):
                s2 = st.copy()
                if it.setrng(s2, v[1], a, b):
                    out.append((s2, ('ret', ('bool', r))))
            return out
    return None

class VMArith(vmexec.Machine):
    relational = True
    def hook(self, st, f, t, g, args, fname):
        if g is not None:
            r = primitives(self, st, f, t, g, args)
            if r is not None:
                return r
        return super().hook(st, f, t, g, args, fname)

# ---------------------------------------------------------------- canonical results
class Canon:
    def __init__(self, it, st):
        self.it, self.st = it, st
    def aff(self, a):
        r = (a[0], ())
        for s, c in a[1]:
            r = aadd(r, self.atom(s), c)
        return r
    def rng(self, a):
        return self.it.rng(self.st, a)
    def atom(self, s):
        st, it = self.st, self.it
        lo, hi = it.symrng(st, s)
        if lo == hi:
            return num(lo)
        k = s[0] if isinstance(s, tuple) and s else None
        if k == 'wrap' and self.discharged(s):
            return self.aff(s[2])
        if k == 'call' and len(s) == 4:
            m = re.match(r'<i64 as divrem::(Rem|Div)Floor(<.*>)?>::(rem|div)_floor$', s[1])
            if m and all(isinstance(x, tuple) and x[0] == 'int' for x in s[2:]):
                return self.atom(({'Rem': 'mod_floor', 'Div': 'div_floor'}[m.group(1)],) + tuple(x[1] for x in s[2:]))
        if k == 'fld' and isinstance(s[1], tuple) and s[1][0] == 'deref':
            return asym(s)
        if k in ('shr', 'shl') and len(s) == 3:
            x, y = self.aff(s[1]), self.aff(s[2])
            if aconst(y) == 0:
                return x
            if k == 'shr':
                (a, b), (c, d) = self.rng(x), self.rng(y)
                if c >= 62 and FMIN <= a and b <= FMAX or c > FMAX:
                    if a >= 0:
                        return num(0)
                    if b < 0:
                        return num(-1)
            return asym((k, x, y))
        if k == 'abs':
            x = self.aff(s[1])
            a, b = self.rng(x)
            return x if a >= 0 else ascale(x, -1) if b <= 0 else asym(('abs', x))
        if k == 'disc' and s[2] == 'Ordering':
            d = self.find_icmp(s[1])
            if d is not None:
                d = self.aff(d)
                a, b = self.rng(d)
                if a > 0 or b < 0 or a == b == 0:
                    return num((a > 0) - (b < 0))
                return asym(('sign', d)) if repr(d) <= repr(ascale(d, -1)) else ascale(asym(('sign', ascale(d, -1))), -1)
        if k in ('bitor', 'bitxor') and len(s) == 3:
            # x|y = x+y-(x&y) and x^y = x+y-2(x&y)
            x, y = self.aff(s[1]), self.aff(s[2])
            return aadd(aadd(x, y), self.atom(('bitand', x, y)), -1 if k == 'bitor' else -2)
        if k == 'bitand' and len(s) == 3:
            x, y = self.aff(s[1]), self.aff(s[2])
            if aconst(x) == 0 or aconst(y) == 0:
                return num(0)
        if k in ('mul', 'bitand', 'gcd') and len(s) == 3:
            x, y = self.aff(s[1]), self.aff(s[2])
            if k == 'mul':
                if aconst(x) is not None or aconst(y) is not None:
                    return ascale(y, aconst(x)) if aconst(x) is not None else ascale(x, aconst(y))
                s1, s2 = (aconst((x[0], ())), 1), None
                f1, x = self.signed(x)
                f2, y = self.signed(y)
                return ascale(asym((k,) + tuple(sorted((x, y), key=repr))), f1 * f2)
            return asym((k,) + tuple(sorted((x, y), key=repr)))
        if k in ('div_floor', 'mod_floor', 'div', 'rem', 'pow') and len(s) == 3:
            x, y = self.aff(s[1]), self.aff(s[2])
            if aconst(y) == 1:
                return num(0) if k in ('mod_floor', 'rem') else x
            if aconst(x) is not None and aconst(y):
                a, b = aconst(x), aconst(y)
                if k == 'div_floor':
                    return num(a // b)
                if k == 'mod_floor':
                    return num(a % b)
            if aconst(x) == 0 and k != 'pow':
                return num(0)
            if k in ('div', 'rem'):
                (a, b), (c, d) = self.rng(x), self.rng(y)
                if a >= 0 and c > 0:
                    k = {'div': 'div_floor', 'rem': 'mod_floor'}[k]
            return asym((k, x, y))
        return asym(s)
    @staticmethod
    def signed(a):
        n = ascale(a, -1)
        return (1, a) if repr(a) <= repr(n) else (-1, n)
    def find_icmp(self, t):
        if isinstance(t, tuple):
            if len(t) == 2 and t[0] == 'icmp':
                return t[1]
            if len(t) == 2 and t[0] in ('V', 'o'):
                return self.find_icmp(t[1])
        return None
    def discharged(self, w):
        """a shift that lost no bits: shifting the result back was found to give the operand"""
        ty, e = w[1], w[2]
        if len(e[1]) != 1 or e[0] or e[1][0][1] != 1 or e[1][0][0][0] != 'shl':
            return False
        x, y = e[1][0][0][1:]
        back = asym(('shr', asym(w), y))
        for s in (aadd(back, x, -1), aadd(x, back, -1)):
            if self.st.facts.get(('b', ('ieq', s))) is True:
                return True
        return False
    def value(self, v):
        """canonical form of a Ruby value: ('int', aff) | ('bool', ..) | other"""
        st = self.st
        if v[0] == 'Vi':
            return ('int', self.aff(v[1]))
        if v[0] == 'Vb':
            return ('bool', self.bool(v[1]))
        if v[0] == 'V':
            ks = st.kinds.get(v[1], frozenset())
            if ks == {'FIX'}:
                return ('int', self.aff(asym(('n', v[1]))))
            if ks == {'BIGNUM'}:
                return ('int', self.aff(asym(('bn', v[1]))))
            if ks and ks <= {'TRUE', 'FALSE'} and len(ks) == 1:
                return ('bool', 'TRUE' in ks)
            if isinstance(v[1], tuple) and v[1][0] == 'mkv':
                pass
        return v
    def bool(self, b):
        d = vmexec.decide(self.it, self.st, b)
        if d is not None:
            return d
        if b[0] == 'not':
            r = self.bool(b[1])
            return (not r) if isinstance(r, bool) else r[1] if r[0] == 'not' else ('not', r)
        if b[0] in ('ilt', 'ieq'):
            d = self.aff(b[1])
            lo, hi = self.rng(d)
            if b[0] == 'ilt':
                return True if hi < 0 else False if lo >= 0 else ('ilt', d)
            if lo > 0 or hi < 0:
                return False
            return ('ieq', min(d, ascale(d, -1), key=repr))
        if b[0] in ('is_even', 'is_odd'):
            return b if b[0] == 'is_even' else ('not', ('is_even', b[1]))
        return b

ZERODIV = 'ZeroDivision'

def expected(it, st, op, x, y):
    """-> ('int', aff) | ('bool', term) | ('raise', kind) | ('any',) nothing claimed"""
    def sym(k, a, b):
        return asym((k,) + (tuple(sorted((a, b), key=repr)) if k in ('mul', 'bitand', 'bitor', 'bitxor', 'gcd') else (a, b)))
    z = y is not None and it.rng(st, y) == (0, 0)
    if op == '+':
        return ('int', aadd(x, y))
    if op == '-':
        return ('int', aadd(x, y, -1))
    if op in ('*', '&', '|', '^'):
        k = {'*': 'mul', '&': 'bitand', '|': 'bitor', '^': 'bitxor'}[op]
        return ('int', sym(k, x, y))
    if op in ('/', 'div', '%', 'modulo'):
        if z:
            return ('raise', ZERODIV)
        return ('int', sym('div_floor' if op in ('/', 'div') else 'mod_floor', x, y))
    if op in ('<<', '>>'):
        k = y if op == '<<' else ascale(y, -1)
        lo, hi = it.rng(st, k)
        if lo > FMAX:
            return ('any',)           # a result of that size cannot be represented: any error will do
        if lo >= 0:
            return ('int', sym('shl', x, k))
        if hi <= 0:
            return ('int', sym('shr', x, ascale(k, -1)))
        return ('any',)
    if op in ('<', '<=', '>', '>='):
        return ('bool', it.icmp(st, {'<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge'}[op], x, y))
    if op in ('==', '===', 'eql?'):
        return ('bool', it.icmp(st, 'eq', x, y))
    if op == '!=':
        return ('bool', absint.bnot(it.icmp(st, 'eq', x, y)))
    if op == '<=>':
        return ('int', asym(('disc', ('o', ('icmp', aadd(x, y, -1))), 'Ordering')))
    if op in ('**', 'pow'):
        if it.rng(st, y)[0] < 0 or it.rng(st, y)[1] > FMAX:
            return ('any',)
        return ('pow', sym('pow', x, y))
    if op == '-@':
        return ('int', ascale(x, -1))
    if op in ('+@', 'to_i', 'to_int', 'floor', 'ceil', 'round', 'truncate', 'ord'):
        return ('int', x)
    if op == '~':
        return ('int', aadd((-1, ()), x, -1))
    if op in ('next', 'succ'):
        return ('int', aadd(x, num(1)))
    if op == 'pred':
        return ('int', aadd(x, num(1), -1))
    if op in ('abs', 'magnitude'):
        return ('int', asym(('abs', x)))
    if op in ('even?', 'odd?'):
        return ('bool', ('is_even' if op == 'even?' else 'is_odd', x))
    if op == 'zero?':
        return ('bool', it.icmp(st, 'eq', x, num(0)))
    if op == 'gcd':
        return ('int', sym('gcd', x, y))
    return None

UNARY = {'-@', '+@', 'to_i', 'to_int', 'floor', 'ceil', 'round', 'truncate', 'ord', '~', 'next', 'succ', 'pred', 'abs', 'magnitude', 'even?', 'odd?', 'zero?'}

def classes(op):
    if op in UNARY:
        return [(a, None) for a in CLASSES]
    return [(a, b) for a in CLASSES for b in CLASSES]

def setup(st, sym, cls):
    kind, lo, hi = CLASSES[cls]
    st.kinds[sym] = frozenset([kind])
    a = ('n' if kind == 'FIX' else 'bn', sym)
    st.bounds[a] = (lo, hi)
    return asym(a)

def judge(it, s, o, want, got_value):
    """None when the outcome is right, else what is wrong"""
    ev = [e for e in s.effects if e[0] == 'event' and e[1] in ('wrap', 'trunc', 'zerodiv', 'assert')]
    if o[0] == 'panic':
        return 'aborts (%s)' % str(o[1])[:90]
    if o[0] == 'cut':
        return 'UNDECIDED'
    if want[0] == 'any':
        return None
    if got_value is None:
        txt = str(o[1])
        if want[0] == 'raise' and want[1] in txt:
            return None
        if want[0] == 'pow' and "'Argument'" not in txt:
            return None
        m = re.search(r"'agg', '(\w+)', 'RuntimeErrKind'", txt)
        return 'raises %s' % (m.group(1) if m else 'an error')
    if want[0] == 'raise':
        return 'does not raise %s' % want[1]
    c = Canon(it, s)
    g = c.value(got_value)
    if want[0] in ('int', 'pow'):
        w = ('int', c.aff(want[1]))
        if g != w and g[0] == 'int':
            lo, hi = it.rng(s, aadd(g[1], w[1], -1))
            if lo == hi == 0:
                return None
        if want[0] == 'pow' and g[0] == 'Vf':
            return None               # exponents beyond 32 bits leave the integers by way of a Float
    else:
        w = ('bool', c.bool(want[1]))
    if g == w:
        return None
    if opaque(g) or not refuted(it, s, g, w):
        return 'UNDECIDED'
    return 'gives %s instead of %s' % (show(g), show(w))

SAMPLES = [0, 1, -1, 2, -2, 3, 7, -7, 12, 63, 64, 65, 255, 256, 2**16, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32, 2**40 + 3, 2**61, FMAX, FMIN, FMAX - 1, FMIN + 1, FMAX + 1, FMIN - 1,
           2**63 - 1, -2**63, 2**63, 2**64, -2**64, 2**70, -2**70 - 5, 2**64 + 2**33]

class Stuck(Exception):
    pass

def value_of(t, env):
    """value of an exact term at one point"""
    def A(a):
        r = a[0]
        for s, c in a[1]:
            r += c * S(s)
        return r
    def S(s):
        if s in env:
            return env[s]
        k = s[0]
        if k in ('wrap', 'trunc') and len(s) == 3 and s[1] in absint.RANGE and isinstance(s[2], tuple):
            lo, hi = absint.RANGE[s[1]]
            return (A(s[2]) - lo) % (hi - lo + 1) + lo
        if k in ('mul', 'bitand', 'bitor', 'bitxor', 'div_floor', 'mod_floor', 'shl', 'shr', 'div', 'rem', 'pow', 'gcd') and len(s) == 3:
            x, y = A(s[1]), A(s[2])
            if k in ('div_floor', 'mod_floor', 'div', 'rem') and y == 0 or k in ('shl', 'shr', 'pow') and not 0 <= y < 200:
                raise Stuck
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1) if k in ('div', 'rem') else 0
            return {'mul': lambda: x * y, 'bitand': lambda: x & y, 'bitor': lambda: x | y, 'bitxor': lambda: x ^ y, 'div_floor': lambda: x // y, 'mod_floor': lambda: x % y,
                    'shl': lambda: x << y, 'shr': lambda: x >> y, 'div': lambda: q, 'rem': lambda: x - q * y, 'pow': lambda: x ** y, 'gcd': lambda: math.gcd(x, y)}[k]()
        if k == 'abs':
            return abs(A(s[1]))
        if k == 'sign':
            d = A(s[1])
            return (d > 0) - (d < 0)
        raise Stuck
    if t[0] == 'int':
        return A(t[1])
    if t[0] == 'bool':
        b = t[1]
        if isinstance(b, bool):
            return b
        if b[0] == 'not':
            return not value_of(('bool', b[1]), env)
        if b[0] in ('ilt', 'ieq'):
            d = A(b[1])
            return d < 0 if b[0] == 'ilt' else d == 0
        if b[0] in ('is_even', 'is_odd'):
            return (A(b[1]) % 2 == 0) == (b[0] == 'is_even')
    raise Stuck

def refuted(it, s, got, want):
    """two different terms are a violation unless they agree wherever they can be compared (an algebraic identity this analysis does not know)"""
    atoms = sorted({a for a in s.bounds if isinstance(a, tuple) and a and a[0] in ('n', 'bn') and (occurs(a, got) or occurs(a, want))}, key=repr)
    if got[0] != want[0] or len(atoms) > 2:
        return True
    dom = [[v for v in SAMPLES if s.bounds[a][0] <= v <= s.bounds[a][1]] for a in atoms]
    agree = differ = 0
    for vs in itertools.product(*dom):
        env = dict(zip(atoms, vs))
        try:
            if any(not value_of(('bool', k[1]), env) == v for k, v in s.facts.items() if k[0] == 'b' and isinstance(k[1], tuple) and k[1][0] in ('ilt', 'ieq') and isinstance(v, bool) and known(k[1], atoms)):
                continue
            if value_of(got, env) == value_of(want, env):
                agree += 1
            else:
                differ += 1
        except Stuck:
            continue
    return differ > 0 or agree < 4

def known(t, atoms):
    try:
        value_of(('bool', t), {a: 5 for a in atoms})
        return True
    except Stuck:
        return False

def opaque(t):
    """the result of a call this analysis did not enter"""
    if isinstance(t, tuple):
        return bool(t) and t[0] in ('call', 'apply') or any(opaque(x) for x in t)
    return False

def show(t):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] in ('int', 'Vi', 'big', 'bool', 'Vb'):
            return show(t[1])
        if len(t) == 2 and isinstance(t[0], int) and not isinstance(t[0], bool) and isinstance(t[1], tuple):
            parts = [(('' if c == 1 else '-' if c == -1 else '%d*' % c) + show(s)) for s, c in t[1]]
            if t[0] or not parts:
                parts.append(str(t[0]))
            return '+'.join(parts).replace('+-', '-')
        if len(t) == 2 and t[0] in ('n', 'bn'):
            return show(t[1])
        if t in (('self',), ('value', ('node', 'lhs'))):
            return 'x'
        if t in (('arg', 0), ('value', ('node', 'rhs'))):
            return 'y'
        if t and isinstance(t[0], str):
            return '%s(%s)' % (t[0], ', '.join(show(x) for x in t[1:]))
        return '(%s)' % ', '.join(show(x) for x in t)
    return str(t)[:80]

# ---------------------------------------------------------------- workers
G = {}

def do_native(job):
    """(A) one Integer builtin"""
    key, name, op = job
    p = G['p']
    f = ruby.natives(p)[key]
    out = []
    for a, b in classes(op):
        it = Arith(p)
        it.widen = False
        it.okvm = {key}
        st = St()
        st.bounds[('argc',)] = (1, 1) if b else (0, 0)
        x = setup(st, ('self',), a)
        y = setup(st, ('arg', 0), b) if b else None
        want = expected(it, st, op, x, y)
        bad, und = [], 0
        try:
            rs = it.run(f, [('o', ('vm',)), ('V', ('self',)), ('o', ('args2',))], st)
        except Limit as e:
            out.append((a, b, [], 1))
            continue
        for s, o in rs:
            v = o[1][3][0] if o[0] == 'ret' and o[1][0] == 'agg' and o[1][1] == 'Ok' else None
            if o[0] == 'ret' and v is None and o[1][0] != 'agg':
                und += 1
                continue
            w = judge(it, s, o, want, it.val(s, v) if v is not None else None)
            if w == 'UNDECIDED':
                und += 1
            elif w:
                bad.append(w)
        out.append((a, b, bad, und if rs else 1))
    return job, out

def do_operator(job):
    """(A) one operator of the language"""
    from rules import p15
    op, spell, ins = job
    mach = G['mach']
    L, R = ('node', 'lhs'), ('node', 'rhs')
    out = []
    for a, b in classes(spell):
        st = St()
        bounds = []
        syms = [(('value', L), a)] + ([(('value', R), b)] if b else [])
        ko = {}
        vals = []
        for sy, c in syms:
            kind, lo, hi = CLASSES[c]
            at = ('n' if kind == 'FIX' else 'bn', sy)
            bounds.append((at, lo, hi))
            vals.append(asym(at))
            ko[sy[1]] = frozenset([kind])
            st.bounds[at] = (lo, hi)
        ko['bounds'] = bounds
        want = expected(mach, st, spell, vals[0], vals[1] if b else None)
        bad, und, sends = [], 0, set()
        try:
            rs = p15.execute(mach, ins, {}, ko)
        except Limit as e:
            out.append((a, b, [], 1, []))
            continue
        for s, o in rs:
            calls = [e for e in s.effects if e[0] == 'call']
            if calls:
                for e in calls:
                    sends.add(e[1].split('::')[-1])
                continue
            v = s.stack[-1] if o[0] == 'stop' and s.stack else None
            w = judge(mach, s, o, want, v)
            if w == 'UNDECIDED':
                und += 1
            elif w:
                bad.append(w)
        out.append((a, b, bad, und if rs else 1, sorted(sends)))
    return job, out

def mention(t):
    if isinstance(t, tuple):
        if len(t) >= 2 and t[0] in ('n', 'bn'):
            return True
        return any(mention(x) for x in t)
    return False

def mention_float(t):
    if isinstance(t, tuple):
        if len(t) >= 3 and t[0] == 'f2i':
            return True
        return any(mention_float(x) for x in t)
    return False

def becomes_integer(s, o, detail):
    """the damaged machine integer ends up in an Integer the program sees"""
    def inside(t, damaged):
        if isinstance(t, tuple):
            if damaged and len(t) == 3 and t[0] in ('trunc', 'wrap') and (t[2] == detail[2] or t[2] == detail[1]):
                return True
            return any(inside(x, damaged or bool(t) and t[0] == 'Vi') for x in t)
        return False
    return inside(o[1:], False) or any(inside(e[2:], False) for e in s.effects if e[0] == 'call')

def occurs(w, t):
    if t == w:
        return True
    return isinstance(t, tuple) and any(occurs(w, x) for x in t)

EXPLICIT = re.compile(r'(wrapping|overflowing|checked)_|^(Shl)$')

def do_sweep(job):
    """(B) one builtin with integer arguments"""
    key, name, akinds = job
    p = G['p']
    f = ruby.natives(p)[key]
    it = Arith(p)
    it.akinds = frozenset(akinds)
    it.okvm = {key}
    st = St()
    st.kinds[('self',)] = frozenset(['FIX', 'BIGNUM']) if name.startswith(('integer#', 'numeric#')) else frozenset(it.heap)
    try:
        rs = it.run(f, [('o', ('vm',)), ('V', ('self',)), ('o', ('args2',))], st)
    except Limit as e:
        return job, None, str(e), 0
    found = {}
    for s, o in rs:
        for e in s.effects:
            if e[0] != 'event' or e[1] not in ('wrap', 'trunc', 'zerodiv', 'assert', 'saturate'):
                continue
            kind, detail, fk, span = e[1:5]
            if not mention(detail) and not (kind == 'saturate' or mention_float(detail)) and not (kind in ('trunc', 'wrap') and becomes_integer(s, o, detail)):
                continue
            if kind == 'assert' and 'index out of bounds' in str(detail):
                continue
            what = detail[0] if kind in ('wrap', 'trunc', 'saturate') and isinstance(detail[0], str) else ''
            if kind == 'wrap' and EXPLICIT.search(detail[0]):
                # an operation that is meant to drop bits matters only if its result is used
                w = ('wrap', detail[2], detail[1])
                w = next((x for x in s.bounds if isinstance(x, tuple) and len(x) == 3 and x[1] == detail[2] and x[2] == detail[1] and x[0] not in ('trunc',)), w)
                if Canon(it, s).discharged(w) or not (occurs(w, o[1:]) or any(occurs(w, e2[2:]) for e2 in s.effects if e2[0] == 'call')):
                    continue
            if kind == 'trunc':
                what = detail[1]
            fn = fk.split('::')[-1]
            if kind == 'saturate':
                fn = re.sub(r'^.*builtin::', '', fk)
            found.setdefault((kind, what if kind != 'assert' else assert_text(detail), fn), (span, show(detail)[:160]))
    return job, found, None, len(rs)

def assert_text(d):
    m = re.search(r'attempt to (\w+)', str(d))
    return m.group(1) if m else 'assert'


# ---------------------------------------------------------------- driver
def run(ctx):
    from rules import p15
    p = ctx.p
    G['p'] = p
    names = ruby.ruby_names(p)
    nat = ruby.natives(p)
    # operators of the language
    comp = vmexec.Compiler(p, vmexec.writers(p))
    inames, size = vmexec.inst_table(p)
    G['mach'] = VMArith(p)
    G['mach'].heap
    gens = []
    for f in p.fns:
        if f.self_type == 'Codegen' and f.kind == 'fn' and f.blocks and comp.emits(f):
            for i, a in enumerate(f.args):
                if p15.NODE.match(f.types[a]) and p15.tests_kind(f, a) and f.key == comp.gen.key:
                    gens.append((f, i))
    if len(gens) != 1:
        raise AnalysisError('code generator of expressions not found')
    gf, gi = gens[0]
    nodes = []
    for op, node in p15.variants(ctx, comp):
        if op in p15.SPELL:
            for sp in ([p15.SPELL[op]] if isinstance(p15.SPELL[op], str) else [p15.SPELL[op][-1]]):
                nodes.append((op, sp, node))
    for op, sp in (('Neg', '-@'), ('BitNot', '~')):
        kind = ('agg', 'UnOp', 'NodeKind', (('agg', op, 'UnOp', ()), ('o', ('node', 'lhs'))))
        nodes.append((op, sp, ('agg', None, 'Annot', (kind, ('o', ('loc',))))))
    jobs_op = []
    for op, sp, node in nodes:
        es = p15.emissions(ctx, comp, size, gf, gi, node, True) or []
        es = {str(e.ins): e for e in es if not e.lits and any(x[0] == 'op' for x in e.ins)
              and [p15.strip(x[1]) for x in e.ins if x[0] == 'gen'][:1] == [('node', 'lhs')]}
        if not es:
            raise AnalysisError('no instructions found for operator %s' % op)
        for e in es.values():
            ops = [x for x in e.ins if x[0] == 'op' and inames.get(x[1]) not in ('POP',)]
            jobs_op.append((op + ' ' + '+'.join(inames.get(x[1], str(x[1])) for x in ops), sp, tuple(x for x in e.ins if not (x[0] == 'op' and inames.get(x[1]) == 'POP'))))
    jobs_nat, jobs_sweep = [], []
    claimed = {}
    for k, ns in sorted(names.items()):
        for n in ns:
            if n.startswith('integer#') and n[8:] in OPNAMES:
                jobs_nat.append((k, n, n[8:]))
                claimed[n[8:]] = k
        jobs_sweep.append((k, ns[0], ('FIX', 'BIGNUM', 'FLO')))
    unnamed = [k for k in nat if k not in names]
    for k in sorted(unnamed):
        jobs_sweep.append((k, k, ('FIX', 'BIGNUM', 'FLO')))
    with Pool(8) as pool:
        r_sweep = pool.map_async(do_sweep, jobs_sweep, 1)
        r_nat = pool.map_async(do_native, jobs_nat, 1)
        r_op = pool.map_async(do_operator, jobs_op, 1)
        r_sweep, r_nat, r_op = r_sweep.get(), r_nat.get(), r_op.get()
    verdicts = {}
    for (key, name, op), out in r_nat:
        for a, b, bad, und in out:
            report(ctx, 'builtin', name, nat[key].loc(), a, b, bad, und)
    handled = set()
    for (op, sp, ins), out in r_op:
        for a, b, bad, und, sends in out:
            if sp not in claimed and (sends or bad and all(w == 'raises NoMethod' for w in bad)):
                # no builtin of that name: the program gets a NoMethodError, not a wrong number
                ctx.seen('combinations without a method', 1)
                bad = [w for w in bad if w != 'raises NoMethod']
            report(ctx, 'operator', op, 'instruction handler', a, b, bad, und)
    nsw = 0
    for (key, name, ak), found, limit, n in r_sweep:
        if found is None:
            ctx.seen('builtins too large to decide', 1)
            ctx.notes.append('%s not decided: %s' % (name, limit))
            continue
        nsw += 1
        ctx.seen('paths', n)
        good = True
        for (kind, what, fn), (span, text) in sorted(found.items()):
            if (fn, kind, what) in EXEMPT:
                ctx.seen('exempt', 1)
                continue
            good = False
            ctx.bad('no loss', '%s:%s:%s:%s' % (name, fn, kind, what), '%s: %s' % (name, MEANS[kind] % dict(what=what, fn=fn)) + ' [%s]' % text, span)
        if good:
            ctx.ok('no loss', name)
    encoding(ctx, p)
    for k, v in TRUSTED.items():
        ctx.assume('%s computes the %s' % (k, v))
    ctx.assume('lengths of strings and containers stay below 2**47; the num-bigint and divrem crates compute what their operations are named after')
    for (fn, kind, what), why in sorted(EXEMPT.items()):
        ctx.assume('%s (%s %s): %s' % (fn, kind, what, why))
    ctx.floor('builtin', 250)
    ctx.floor('operator', 300)
    ctx.floor('no loss', 380)

OPNAMES = {'+', '-', '*', '/', 'div', '%', 'modulo', '&', '|', '^', '<<', '>>', '<', '<=', '>', '>=', '==', '===', '!=', '<=>', '**', 'pow', 'gcd'} | UNARY
MEANS = {'wrap': 'the machine operation %(what)s in %(fn)s can exceed its type', 'trunc': 'a conversion to %(what)s in %(fn)s can drop bits',
         'zerodiv': 'a division in %(fn)s is reached without excluding a zero divisor', 'assert': 'the operation in %(fn)s (%(what)s) can overflow',
         'saturate': 'a Float is forced into a machine integer (%(what)s) in %(fn)s'}

def report(ctx, kind, name, where, a, b, bad, und):
    item = '%s on %s' % (name, a if b is None else '%s, %s' % (a, b))
    if bad:
        ctx.bad(kind, '%s:%s:%s' % (name, a, b), '%s with %s %s' % (name, a if b is None else '%s and %s' % (a, b), bad[0]), where)
    elif und:
        ctx.seen('undecided', 1)
        ctx.notes.append('undecided: ' + item)
    else:
        ctx.ok(kind, item)

def encoding(ctx, p):
    """(C) small integers, bit by bit"""
    res, it = bits.check(p)
    for name, r, f in res:
        if r is True:
            ctx.ok('encoding', name)
        elif r.startswith('UNDECIDED'):
            ctx.seen('undecided', 1)
            ctx.notes.append('undecided: %s: %s' % (name, r))
        else:
            ctx.bad('encoding', name, r, f.loc())
    ctx.floor('encoding', 3)
