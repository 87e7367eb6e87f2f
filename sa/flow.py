"""Dataflow helpers on MIR functions."""
import re
from mir import Place, Op
from program import simple, AnalysisError

# ---------------------------------------------------------------- definitions
def defs(f):
    """local -> [(block, idx, rv or Term)] for whole-local assignments (args: ('arg', n))"""
    d = getattr(f, '_defs', None)
    if d is not None:
        return d
    d = {}
    for a in f.args:
        d.setdefault(a, []).append(('arg', a, None))
    for b in f.normal_blocks():
        blk = f.blocks[b]
        for i, s in enumerate(blk.stmts):
            if s.kind == 'assign' and not s.place.proj:
                d.setdefault(s.place.local, []).append((b, i, s.rv))
        t = blk.term
        if t.kind == 'call' and not t.dest.proj:
            d.setdefault(t.dest.local, []).append((b, len(blk.stmts), t))
    f._defs = d
    return d

def partial_defs(f):
    d = {}
    for b, i, s in f.stmts():
        if s.kind == 'assign' and s.place.proj:
            d.setdefault(s.place.local, []).append((b, i, s))
    for b, t in f.calls():
        if t.dest.proj:
            d.setdefault(t.dest.local, []).append((b, len(f.blocks[b].stmts), t))
    return d

def single_def(f, l):
    d = defs(f).get(l, [])
    return d[0] if len(d) == 1 else None

TRANSPARENT = re.compile(r'(::deref$|::deref_mut$|::borrow$|::borrow_mut$|::as_ref$|::as_mut$|::clone$|::into$|::from$|::as_ref::|<.* as std::ops::Deref>::deref|<.* as std::ops::DerefMut>::deref_mut|<.* as std::clone::Clone>::clone|<.* as std::convert::Into<.*>>::into)')

def origin(f, op_or_place, through_calls=False, limit=60):
    """follow copies/moves/refs/casts of single-definition temporaries back to a base.
    returns (kind, data, proj): kind 'arg' n / 'local' n / 'const' op / 'call' (b, term) / 'rv' rv"""
    proj = []
    if isinstance(op_or_place, Op):
        if op_or_place.kind == 'const':
            return ('const', op_or_place, ())
        pl = op_or_place.place
    elif isinstance(op_or_place, Place):
        pl = op_or_place
    else:
        pl = Place(op_or_place)
    while limit:
        limit -= 1
        proj = list(pl.proj) + proj
        l = pl.local
        d = single_def(f, l)
        if d is None:
            return ('local', l, tuple(proj))
        if d[0] == 'arg':
            return ('arg', l, tuple(proj))
        rv = d[2]
        if hasattr(rv, 'func'):           # call
            if through_calls and rv.args and rv.func and TRANSPARENT.search(rv.func):
                a = rv.args[0]
                if a.place is None:
                    return ('const', a, tuple(proj))
                pl = a.place
                continue
            return ('call', (d[0], rv), tuple(proj))
        if rv.kind == 'use' or rv.kind == 'cast':
            a = rv.ops[0]
            if a.place is None:
                return ('const', a, tuple(proj))
            pl = a.place
            continue
        if rv.kind in ('ref', 'addr'):
            # &place then a leading deref cancels
            if proj and proj[0] == '*':
                proj = proj[1:]
            pl = rv.ops[0].place
            continue
        return ('rv', rv, tuple(proj))
    return ('local', pl.local, tuple(proj))

# ---------------------------------------------------------------- expression trees
class TooComplex(Exception):
    pass

def const_value(prog, op, crate):
    """integer value of a constant operand or None"""
    t = op.text
    if op.path is not None:
        return const_path_value(prog, op.path, crate)
    m = re.match(r'^(-?\d+)_[iu](8|16|32|64|128|size)$', t or '')
    if m:
        return int(m.group(1))
    if t == 'true':
        return 1
    if t == 'false':
        return 0
    m = re.match(r"^'(.*)'$", t or '')
    return None

def const_path_value(prog, path, crate):
    m = prog.__dict__.setdefault('_cpv', {})
    k = (path, crate)
    if k not in m:
        f = find_const(prog, path, crate)
        m[k] = eval_const(prog, f) if f is not None else None
    return m[k]

def find_const(prog, path, crate):
    m = prog.__dict__.setdefault('_fc', {})
    k = (path, crate)
    if k not in m:
        m[k] = _find_const(prog, path, crate)
    return m[k]

def _find_const(prog, path, crate):
    for cr in (crate, 'ruruby', 'ruruby_common', 'ruruby_parse'):
        p = path
        for c in ('ruruby_common', 'ruruby_parse', 'ruruby'):
            if p.startswith(c + '::'):
                p, cr = p[len(c) + 2:], c
        f = prog.consts.get((cr, p))
        if f is not None:
            return f
    m = re.match(r'(?:\w+::)?((?:\w+::)*)\{impl#\d+\}::(\w+)$', path)
    if m:
        # an associated constant named by definition path: any impl of that module that has it
        cand = [f for f in prog.fns if f.kind == 'const' and f.key.split('::')[-1] == m.group(2) and f.header.startswith(m.group(1) + '<impl at')]
        return cand[0] if len(cand) == 1 else None
    segs = [s for s in re.sub(r'<impl [^>]*>::', '', path).split('::')]
    cand = [f for f in prog.fns if f.kind == 'const' and f.key.split('::')[-1] == segs[-1]
            and (len(segs) < 2 or f.self_type in (segs[-2], None) or f.key.endswith('::'.join(segs[-2:])))]
    if f is None and '<impl ' in path:
        ty = simple(re.search(r'<impl ([^>]*)>', path).group(1))
        cand = [f for f in cand if f.self_type == ty]
    if len(cand) == 1:
        return cand[0]
    exact = [f for f in cand if f.header.endswith(path)]
    return exact[0] if len(exact) == 1 else None

def eval_const(prog, f, _seen=None):
    """fold a constant's MIR body to an int, or a tuple of ints for newtypes"""
    if getattr(f, '_cv', None) is not None:
        return f._cv
    env = {}
    b = 0
    for _ in range(200):
        blk = f.blocks[b]
        for s in blk.stmts:
            if s.kind != 'assign' or s.place.proj:
                continue
            env[s.place.local] = _fold(prog, f, s.rv, env)
        t = blk.term
        if t.kind == 'return':
            f._cv = env.get(0)
            return f._cv
        if t.kind == 'call':
            args = [_fold_op(prog, f, a, env) for a in t.args]
            env[t.dest.local] = args[0] if len(args) == 1 else None
        if t.kind == 'switch':
            v = _fold_op(prog, f, t.op, env)
            b = next((x for k, x in t.targets if k == v), t.targets[-1][1])
            continue
        if not t.succ:
            return None
        b = t.succ[0]
    return None

def _fold_op(prog, f, op, env):
    if op.kind == 'const':
        return const_value(prog, op, f.crate)
    v = env.get(op.place.local)
    for p in op.place.proj:
        if isinstance(v, tuple) and p != '*' and p[0] == 'f':
            v = v[p[1]]
    return v

def bits_of(ty):
    m = re.fullmatch(r'[iu](8|16|32|64|128|size)', ty or '')
    return None if not m else (64 if m.group(1) == 'size' else int(m.group(1)))

def _fold(prog, f, rv, env):
    if rv.kind in ('use', 'cast'):
        v = _fold_op(prog, f, rv.ops[0], env)
        if rv.kind == 'cast' and isinstance(v, int) and bits_of(rv.a[1]):
            w = bits_of(rv.a[1])
            v &= (1 << w) - 1
            if rv.a[1].startswith('i') and v >> (w - 1):
                v -= 1 << w
        return v
    if rv.kind == 'agg':
        vs = [_fold_op(prog, f, o, env) for o in rv.ops]
        return vs[0] if len(vs) == 1 else tuple(vs)
    if rv.kind == 'un':
        v = _fold_op(prog, f, rv.ops[0], env)
        if not isinstance(v, int):
            return None
        return (v ^ 0xffffffffffffffff) if rv.a == 'Not' else -v
    if rv.kind == 'bin':
        a, b = (_fold_op(prog, f, o, env) for o in rv.ops)
        if not isinstance(a, int) or not isinstance(b, int):
            return None
        op = rv.a.replace('Checked', '').replace('Unchecked', '')
        r = {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mul': lambda: a * b, 'BitAnd': lambda: a & b, 'BitOr': lambda: a | b,
             'BitXor': lambda: a ^ b, 'Shl': lambda: (a << b) & 0xffffffffffffffff, 'Shr': lambda: a >> b,
             'Div': lambda: a // b if b else None, 'Rem': lambda: a % b if b else None,
             'Eq': lambda: int(a == b), 'Ne': lambda: int(a != b), 'Lt': lambda: int(a < b), 'Le': lambda: int(a <= b),
             'Gt': lambda: int(a > b), 'Ge': lambda: int(a >= b)}.get(op)
        r = r() if r else None
        return (r, 0) if rv.a.startswith('Checked') else r
    return None

def expr(prog, f, op, depth=0):
    """expression tree of an operand built from single-definition temporaries; straight-line workspace callees are inlined.
    ('int', v) | ('arg', n, proj) | ('bin', op, a, b) | ('un', op, a) | ('call', name, args) | ('local', n, proj)"""
    if depth > 40:
        raise TooComplex()
    if isinstance(op, Op) and op.kind == 'const':
        v = const_value(prog, op, f.crate)
        if isinstance(v, int):
            return ('int', v)
        return ('const', op.path or op.text)
    kind, data, proj = origin(f, op)
    proj = tuple(p for p in proj if p != '*')
    if kind == 'const':
        v = const_value(prog, data, f.crate)
        return ('int', v) if isinstance(v, int) else ('const', data.path or data.text)
    if kind == 'arg':
        return ('arg', data, proj)
    if kind == 'local':
        return ('local', data, proj)
    if kind == 'call':
        b, t = data
        args = [expr(prog, f, a, depth + 1) for a in t.args]
        r = prog.resolve(t.func, f.crate)
        if len(r) == 1:
            e = return_expr(prog, r[0], depth + 1)
            if e is not None:
                e = subst(e, args)
                return e if not proj else ('proj', e, proj)
        return ('call', t.func, tuple(args))
    rv = data
    if rv.kind == 'bin':
        a, b = (expr(prog, f, o, depth + 1) for o in rv.ops)
        return ('bin', rv.a.replace('Checked', ''), a, b)
    if rv.kind == 'un':
        return ('un', rv.a, expr(prog, f, rv.ops[0], depth + 1))
    if rv.kind == 'agg' and len(rv.ops) == 1:
        return expr(prog, f, rv.ops[0], depth + 1)
    return ('rv', repr(rv))

def return_expr(prog, g, depth=0):
    """expression of the value returned by a function without branches, in terms of ('arg', n, proj)"""
    if depth > 12:
        return None
    for b in g.normal_blocks():
        if g.blocks[b].term.kind == 'switch':
            return None
    if single_def(g, 0) is None:
        return None
    try:
        return expr(prog, g, 0, depth)
    except (TooComplex, RecursionError):
        return None

def subst(e, args):
    if e[0] == 'arg':
        a = args[e[1] - 1]
        return a if not e[2] else (('proj', a, e[2]) if a[0] not in ('arg', 'local') else (a[0], a[1], tuple(a[2]) + tuple(e[2])))
    return tuple([e[0]] + [subst(x, args) if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in
                           ('arg', 'bin', 'un', 'call', 'int', 'const', 'local', 'proj', 'rv') else
                           (tuple(subst(y, args) for y in x) if isinstance(x, tuple) and x and isinstance(x[0], tuple) and isinstance(x[0][0], str) and x[0][0] in
                            ('arg', 'bin', 'un', 'call', 'int', 'const', 'local', 'proj', 'rv') else x) for x in e[1:]])

def fold_expr(e, argval):
    """value of an expression tree when every ('arg', ..) leaf has value argval"""
    M = 0xffffffffffffffff
    if e[0] == 'int':
        return e[1] & M
    if e[0] in ('arg', 'proj'):
        return argval
    if e[0] == 'un':
        v = fold_expr(e[2], argval)
        return None if v is None else ((~v & M) if e[1] == 'Not' else -v & M)
    if e[0] == 'call' and len(e[2]) == 1 and e[1].endswith('::get'):
        return fold_expr(e[2][0], argval)
    if e[0] == 'bin':
        a, b = fold_expr(e[2], argval), fold_expr(e[3], argval)
        if a is None or b is None:
            return None
        return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b, 'Eq': int(a == b), 'Ne': int(a != b),
                'Shr': a >> min(b, 70), 'Shl': (a << min(b, 70)) & M, 'Add': (a + b) & M, 'Sub': (a - b) & M}.get(e[1])
    return None

# ---------------------------------------------------------------- graph helpers
def reachable(f, starts, avoid=frozenset(), unwind=False):
    seen, st = set(), [s for s in starts if s not in avoid]
    seen.update(st)
    while st:
        b = st.pop()
        for s in f.succs(b, unwind):
            if s not in seen and s not in avoid:
                seen.add(s)
                st.append(s)
    return seen

def dominators(f):
    d = getattr(f, '_dom', None)
    if d is not None:
        return d
    nb = f.normal_blocks()
    preds = f.preds()
    order, seen = [], set()
    st = [(0, iter(f.succs(0)))]
    seen.add(0)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(f.succs(s))))
                break
        else:
            order.append(b)
            st.pop()
    order.reverse()
    idx = {b: i for i, b in enumerate(order)}
    idom = {0: 0}
    changed = True
    while changed:
        changed = False
        for b in order[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while idx[x] > idx[y]:
                                x = idom[x]
                            while idx[y] > idx[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                changed = True
    f._dom = idom
    return idom

def dominates(f, a, b):
    idom = dominators(f)
    if b not in idom:
        return False
    while True:
        if a == b:
            return True
        if b == 0:
            return False
        b = idom[b]

def forward(f, init, transfer, join, edge=None, unwind=False):
    """forward dataflow over blocks; transfer(b, state) -> state at end; edge(b, succ, index, state) refines per edge (None: infeasible)"""
    IN = {0: init}
    work = [0]
    n = 0
    while work:
        n += 1
        if n > 200000:
            raise AnalysisError('dataflow does not converge in %s' % f.key)
        b = work.pop(0)
        out = transfer(b, IN[b])
        if out is None:
            continue
        succs = f.succs(b, unwind)
        for i, s in enumerate(succs):
            o = edge(b, s, i, out) if edge else out
            if o is None:
                continue
            if s not in IN:
                IN[s] = o
                work.append(s)
            else:
                j = join(IN[s], o)
                if j != IN[s]:
                    IN[s] = j
                    if s not in work:
                        work.append(s)
    return IN

def operands_of(x):
    """operands read by a statement's rvalue or a terminator"""
    if x is None:
        return []
    if hasattr(x, 'ops'):
        return list(x.ops)
    r = list(x.args)
    if x.op is not None:
        r.append(x.op)
    if x.fop is not None:
        r.append(x.fop)
    return r

def uses_in(pl):
    return [pl.local] + [p[1] for p in pl.proj if p != '*' and p[0] == 'i']

def live_in(f, discr=True):
    """classic backward liveness of locals: block -> set live at entry"""
    use, dfn = {}, {}
    nb = f.normal_blocks()
    for b in nb:
        u, d = set(), set()
        blk = f.blocks[b]
        for s in blk.stmts:
            if s.kind == 'assign':
                for o in s.rv.ops:
                    if o.place is not None and (discr or s.rv.kind != 'discr' or '*' in o.place.proj):
                        u.update(x for x in uses_in(o.place) if x not in d)
                if s.place.proj:
                    u.update(x for x in uses_in(s.place) if x not in d)
                else:
                    d.add(s.place.local)
        t = blk.term
        for o in operands_of(t):
            if o.place is not None and not (t.kind == 'drop'):
                u.update(x for x in uses_in(o.place) if x not in d)
        if t.kind == 'call':
            if t.dest.proj:
                u.update(x for x in uses_in(t.dest) if x not in d)
            else:
                d.add(t.dest.local)
        if t.kind == 'return' and 0 not in d:
            u.add(0)
        use[b], dfn[b] = u, d
    L = {b: set(use[b]) for b in nb}
    changed = True
    while changed:
        changed = False
        for b in reversed(nb):
            o = set()
            for s in f.blocks[b].term.succ:
                o |= L[s]
            n = use[b] | (o - dfn[b])
            if n != L[b]:
                L[b] = n
                changed = True
    return L

def span_line(span):
    m = re.search(r'([\w./-]+\.rs):(\d+):', span or '')
    return '%s:%s' % (m.group(1), m.group(2)) if m else (span or '?')
