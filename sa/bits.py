"""Bit-precise abstract interpretation of small loop-free MIR functions: every value is a vector of boolean polynomials over the bits of the arguments.
Equality of two polynomials (in algebraic normal form) is equality of the boolean functions they denote, so verdicts cover all 2**64 inputs."""
import re
from program import AnalysisError
from absint import const_value, Interp, St

ZERO, ONE = frozenset(), frozenset([frozenset()])
W = 64
SIZE = {'i8': 8, 'u8': 8, 'i16': 16, 'u16': 16, 'i32': 32, 'u32': 32, 'i64': 64, 'u64': 64, 'isize': 64, 'usize': 64, 'bool': 1, 'char': 32}

SIZES = ('to_i64', 'to_i32', 'to_i16', 'to_i8')

class Unknown(Exception):
    pass

def mul(a, b):
    if len(a) * len(b) > 200000:
        raise Unknown('polynomial too large')
    r = set()
    for x in a:
        for y in b:
            r ^= {x | y}
    return frozenset(r)
def inv(a):
    return a ^ ONE
def or_(a, b):
    return a ^ b ^ mul(a, b)
def word(name):
    return [frozenset([frozenset(['%s%d' % (name, i)])]) for i in range(W)]
def const(n):
    return [ONE if n >> i & 1 else ZERO for i in range(W)]
def subst(poly, env):
    """replace atoms by polynomials"""
    r = ZERO
    for m in poly:
        t = ONE
        for a in m:
            t = mul(t, env.get(a, frozenset([frozenset([a])])))
        r = r ^ t
    return r
def vsubst(v, env):
    return [subst(b, env) for b in v]

class Bits:
    OPAQUE = frozenset(['pack', 'new_bigint'])
    def __init__(self, p):
        self.p = p
        self.functions = set()
    def run(self, f, args, depth=0):
        """-> [(condition polynomial, value)]"""
        if depth > 8 or f is None or not f.blocks:
            raise Unknown('call depth')
        self.functions.add(f.key)
        env = {}
        for n, a in zip(f.args, args):
            env[n] = a
        return self.block(f, 0, env, ONE, depth, 0)
    def load(self, f, env, pl):
        v = env.get(pl.local)
        if v is None:
            raise Unknown('local _%d of %s' % (pl.local, f.key))
        for e in pl.proj:
            if isinstance(v, tuple) and v and v[0] in ('some', 'ok'):
                if isinstance(e, tuple) and e[0] in ('downcast', 'variant'):
                    continue
                if e != 'deref' and e != '*':
                    v = v[1]
            elif isinstance(v, tuple) and v and v[0] == 'pair':
                k = e[1] if isinstance(e, tuple) else e
                v = v[1 + int(k)] if str(k).isdigit() else v
        return v
    def op(self, f, env, o):
        if o.place is not None:
            return self.load(f, env, o.place)
        if o.text in ('true', 'false'):
            return const(o.text == 'true')
        v = const_value(self.p, o, f.crate)
        if not isinstance(v, int):
            gs = [g for g in self.p.fns if g.name == (o.path or '').split('::')[-1] and g.kind != 'fn' and g.self_type == 'Value']
            r = Interp(self.p).run_const(St(), gs[0]) if len(gs) == 1 else None
            if r is not None and r[0] == 'int' and not r[1][1]:
                return const(r[1][0])
            raise Unknown('constant %s' % (o.path or o.text))
        return const(v)
    def ty(self, f, o):
        if o.place is not None:
            t = f.types.get(o.place.local) or ''
            return t if not o.place.proj else None
        m = re.search(r'_(i|u)(\d+|size)$', o.text or '')
        return m.group(1) + m.group(2) if m else None
    def less(self, x, y, signed, eq):
        if not (isinstance(x, list) and isinstance(y, list)):
            raise Unknown('comparison')
        r = ONE if eq else ZERO
        for i in range(W):
            a, b = x[i], y[i]
            if signed and i == W - 1:
                a, b = b, a
            # a<b or (a==b and r)
            r = mul(inv(a), b) ^ mul(inv(a ^ b), r)
        return r
    def rv(self, f, env, rv):
        k = rv.kind
        if k in ('use', 'cast'):
            v = self.op(f, env, rv.ops[0])
            if k == 'cast' and isinstance(v, list):
                t = rv.a[1] if isinstance(rv.a, tuple) else rv.a
                n, src = SIZE.get(t), self.ty(f, rv.ops[0])
                if n is None or (src or 'u64') not in SIZE:
                    raise Unknown('cast to %s' % t)
                m = min(n, SIZE.get(src, 64))
                v = v[:m] + [v[m - 1] if (t if SIZE.get(src, 64) > n else src or '').startswith('i') else ZERO] * (W - m)
            return v
        if k == 'ref':
            return self.load(f, env, rv.ops[0].place if hasattr(rv.ops[0], 'place') else rv.ops[0])
        if k == 'un':
            x = self.op(f, env, rv.ops[0])
            if rv.a == 'Not':
                return [inv(x[0])] + [ZERO] * (W - 1) if (self.ty(f, rv.ops[0]) == 'bool') else [inv(b) for b in x]
            if rv.a == 'Neg':
                return self.add([ZERO] * W, [inv(b) for b in x], ONE)
        if k == 'agg':
            name = rv.a if isinstance(rv.a, str) else str(rv.a)
            ops = [self.op(f, env, o) for o in rv.ops]
            t = rv.text or ''
            if rv.a == 'tuple' and len(ops) == 2:
                return ('pair',) + tuple(ops)
            if len(ops) == 1 and re.search(r'Some|Ok', t + name):
                return ('some', ops[0])
            if not ops:
                return ('none',)
            if len(ops) == 1:
                return ops[0]
        if k == 'discr':
            v = self.load(f, env, rv.ops[0].place if hasattr(rv.ops[0], 'place') else rv.ops[0])
            if isinstance(v, tuple) and v[0] in ('some', 'none'):
                return const(v[0] == 'some')
            if isinstance(v, tuple) and v[0] == 'option':
                return ('isome', v)
        if k == 'bin':
            x, y = self.op(f, env, rv.ops[0]), self.op(f, env, rv.ops[1])
            o = rv.a.replace('Unchecked', '')
            over = o.endswith('WithOverflow')
            o = o.replace('WithOverflow', '')
            if not (isinstance(x, list) and isinstance(y, list)):
                raise Unknown('arithmetic on %s' % (x,))
            if o in ('Shl', 'Shr'):
                n = sum((1 << i) for i in range(W) if y[i] == ONE)
                if any(b not in (ZERO, ONE) for b in y) or n >= W:
                    raise Unknown('shift amount')
                t = self.ty(f, rv.ops[0]) or 'u64'
                if SIZE.get(t) != 64:
                    raise Unknown('shift of %s' % t)
                if o == 'Shl':
                    return [ZERO] * n + x[:W - n]
                return x[n:] + [x[-1] if t.startswith('i') else ZERO] * n
            if o in ('BitXor', 'BitAnd', 'BitOr'):
                g = {'BitXor': lambda a, b: a ^ b, 'BitAnd': mul, 'BitOr': or_}[o]
                return [g(a, b) for a, b in zip(x, y)]
            if o in ('Eq', 'Ne'):
                r = ONE
                for a, b in zip(x, y):
                    r = mul(r, inv(a ^ b))
                return [r if o == 'Eq' else inv(r)] + [ZERO] * (W - 1)
            if o in ('Lt', 'Le', 'Gt', 'Ge'):
                t = self.ty(f, rv.ops[0]) or self.ty(f, rv.ops[1]) or 'u64'
                if o in ('Gt', 'Ge'):
                    x, y = y, x
                return [self.less(x, y, t.startswith('i'), o in ('Le', 'Ge'))] + [ZERO] * (W - 1)
            if o in ('Add', 'Sub'):
                r = self.add(x, y, ZERO) if o == 'Add' else self.add(x, [inv(b) for b in y], ONE)
                return ('pair', r, ZERO) if over else r
            if o == 'Mul':
                for a, b in ((x, y), (y, x)):
                    n = sum((1 << i) for i in range(W) if b[i] == ONE)
                    if all(c in (ZERO, ONE) for c in b) and n and not n & (n - 1):
                        r = [ZERO] * (n.bit_length() - 1) + a[:W - n.bit_length() + 1]
                        return ('pair', r, ZERO) if over else r
        raise Unknown('%s in %s' % (rv, f.key))
    def add(self, x, y, c):
        r = []
        for a, b in zip(x, y):
            r.append(a ^ b ^ c)
            c = mul(a, b) ^ mul(c, a ^ b)
            if len(c) > 3000:
                raise Unknown('carry chain')
        return r
    def block(self, f, b, env, cond, depth, n):
        if n > 200:
            raise Unknown('loop')
        env = dict(env)
        while True:
            n += 1
            blk = f.blocks[b]
            for s in blk.stmts:
                if s.kind != 'assign':
                    continue
                if s.place.proj:
                    raise Unknown('store into part of a local')
                try:
                    env[s.place.local] = self.rv(f, env, s.rv)
                except Unknown as e:
                    env[s.place.local] = ('unknown', str(e))
            t = blk.term
            if t.kind == 'return':
                return [(cond, env.get(0))]
            if t.kind == 'switch':
                v = self.op(f, env, t.op)
                if isinstance(v, tuple) and v[0] == 'isome':
                    res = []
                    for want, val in ((1, ('some', v[1][1])), (0, ('none',))):
                        e2 = {k: (val if x is v[1] or x == v[1] else x) for k, x in env.items()}
                        dst = next((d for k, d in t.targets if k == want), t.targets[-1][1])
                        res += [(c, r if want else ('nopt' if v[1][3] == 'to_i64' else 'narrow', r)) for c, r in self.block(f, dst, e2, cond, depth, n)]
                    return res
                if not isinstance(v, list):
                    raise Unknown('branch on %s' % (v,))
                res, rest = [], cond
                for k, dst in t.targets:
                    if k is None:
                        c = rest
                    else:
                        c = rest
                        for i in range(W):
                            c = mul(c, v[i] if k >> i & 1 else inv(v[i]))
                        rest = rest ^ c
                    if c != ZERO:
                        res += self.block(f, dst, env, c, depth, n)
                return res
            if t.kind == 'call':
                last = re.sub(r'::<.*>$', '', t.func or '').split('::')[-1]
                args = [self.op(f, env, a) for a in t.args]
                fns = self.p.resolve(t.func, f.crate) if t.func else []
                outs = None
                if len(fns) == 1 and fns[0].name not in self.OPAQUE and fns[0].blocks and all(isinstance(a, list) for a in args):
                    outs = self.run(fns[0], args, depth + 1)
                elif last in ('get', 'deref', 'unwrap', 'clone', 'new', 'new_unchecked', 'from', 'into', 'as_ref', 'borrow') and len(args) == 1 and not isinstance(args[0], tuple):
                    env[t.dest.local] = args[0]
                elif last in SIZES and args and args[0] == ('num',):
                    env[t.dest.local] = ('option', word('x'), args[0], last)
                else:
                    env[t.dest.local] = ('call', last, tuple(tuple(a) if isinstance(a, list) else a for a in args))
                if outs is not None:
                    res = []
                    for c, v in outs:
                        c2 = mul(c, cond)
                        if c2 != ZERO:
                            e2 = dict(env)
                            e2[t.dest.local] = v
                            res += self.block(f, t.succ[0], e2, c2, depth, n)
                    return res
                b = t.succ[0]
                continue
            if not t.succ:
                return [(cond, ('abort',))]
            b = t.succ[0]

def joined(outs):
    """one vector for the outcomes of all paths"""
    r = [ZERO] * W
    for c, v in outs:
        if not isinstance(v, list):
            raise Unknown('result %s' % (v,))
        r = [a ^ mul(c, b) for a, b in zip(r, v)]
    return r

def check(p):
    """-> [(obligation, True|None|text, function)]"""
    def fn(n):
        r = [f for f in p.fns if f.self_type == 'Value' and f.name == n and f.kind == 'fn' and '{closure' not in f.key]
        if len(r) != 1:
            raise AnalysisError('Value::%s not found' % n)
        return r[0]
    it = Bits(p)
    x, res = word('x'), []
    inr = {'x63': frozenset([frozenset(['x62'])])}       # a 63-bit number: the two top bits agree
    xr = vsubst(x, inr)
    def attempt(name, f, thunk):
        try:
            r = thunk()
        except Unknown as e:
            r = 'UNDECIDED ' + str(e)
        res.append((name, r, f))
    F = {n: fn(n) for n in ('is_i63', 'fixnum', 'as_fnum', 'is_fnum', 'as_fixnum', 'integer', 'bignum')}
    same = x[62] ^ x[63] ^ ONE
    attempt('the range test accepts exactly the 63-bit numbers', F['is_i63'], lambda: joined(it.run(F['is_i63'], [x]))[0] == same or 'the range test of small integers differs from "fits in 63 bits"')
    attempt('unpacking inverts packing', F['as_fnum'], lambda: joined(it.run(F['as_fnum'], [joined(it.run(F['fixnum'], [xr]))])) == xr or 'unpacking a packed small integer does not give it back')
    attempt('packed small integers are recognised', F['is_fnum'], lambda: joined(it.run(F['is_fnum'], [joined(it.run(F['fixnum'], [xr]))]))[0] == ONE or 'a packed small integer is not recognised as one')
    w = [ONE] + word('w')[1:]
    attempt('packing inverts unpacking', F['fixnum'], lambda: joined(it.run(F['fixnum'], [joined(it.run(F['as_fnum'], [w]))])) == w or 'a small integer has two encodings')
    def asfix():
        outs = it.run(F['as_fixnum'], [joined(it.run(F['fixnum'], [xr]))])
        return all(isinstance(v, tuple) and v[0] == 'some' and v[1] == xr for c, v in outs) and bool(outs) or 'as_fixnum does not give back a packed small integer'
    attempt('as_fixnum inverts packing', F['as_fixnum'], asfix)
    def notfix():
        outs = it.run(F['as_fixnum'], [[ZERO] + word('w')[1:]])
        return all(v == ('none',) for c, v in outs) or 'as_fixnum accepts a word that is not a small integer'
    attempt('as_fixnum rejects other words', F['as_fixnum'], notfix)
    def leaves(t):
        if isinstance(t, tuple) and t and t[0] == 'call':
            return (t[1],), [y for a in t[2] for y in [leaves(a)]]
        return t
    def heap(v, src):
        """a chain of calls building an arbitrary-precision integer from src"""
        names = []
        while isinstance(v, tuple) and v and v[0] == 'call' and len(v[2]) == 1:
            names.append(v[1])
            v = v[2][0]
        return 'new_bigint' in names and set(names) <= {'pack', 'new_bigint', 'unwrap', 'to_bigint', 'from', 'into', 'expect'} and v == src
    def constructor(outs, src):
        fits = ZERO
        for c, v in outs:
            if isinstance(v, tuple) and v and v[0] == 'narrow':
                return 'the small form is not used for exactly the 63-bit numbers'
            if isinstance(v, tuple) and v and v[0] == 'nopt':
                if not heap(v[1], ('num',)):
                    return 'a number beyond 64 bits is not kept in arbitrary precision'
                continue
            if isinstance(v, list):
                fits = fits ^ c
                d = joined(it.run(F['as_fnum'], [v]))
                if any(mul(c, a ^ b) != ZERO for a, b in zip(d, x)):
                    return 'the small form is used for a number that it does not hold'
            elif isinstance(v, tuple) and v and v[0] == 'unknown':
                raise Unknown(v[1])
            elif not (heap(v, tuple(x)) or src is not None and heap(v, src)):
                return 'the number is not what the arbitrary-precision form is built from'
        return fits == same or 'the small form is not used for exactly the 63-bit numbers'
    attempt('Value::integer is exact and canonical', F['integer'], lambda: constructor(it.run(F['integer'], [x]), None))
    attempt('Value::bignum is exact and canonical', F['bignum'], lambda: constructor(it.run(F['bignum'], [('num',)]), ('num',)))
    for n, v in (('FIXNUM_MAX', 2**62 - 1), ('FIXNUM_MIN', -2**62)):
        c = [f for f in p.fns if f.name == n and f.self_type == 'Value']
        for f in c:
            k = Interp(p).run_const(St(), f)
            k = k[1][0] if k is not None and k[0] == 'int' and not k[1][1] else None
            res.append(('%s is the limit of small integers' % n, True if k == v else 'UNDECIDED' if not isinstance(k, int) else '%s is %d' % (n, k), f))
    return res, it
if __name__ == '__main__':
    import program
    r, it = check(program.load())
    for n, v, f in r:
        print(n, '|', v)
    print(sorted(it.functions))
