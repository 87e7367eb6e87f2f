"""Code-space distinctness. The compiler's own constant bodies (MIR) of every code space are folded to integers and
compared pairwise: object kinds, instruction codes (plus the profiler's pseudo codes), call-flag bits, frame-flag bits,
class-flag bits, immediate-value encodings, predefined identifier numbers. Bit-mask predicates on values are recovered as
expression trees from MIR; mask/value pairs must be mutually exclusive and must classify the declared immediates correctly.
Identifier registrations are read from the table constructor's calls: each predefined identifier is registered exactly once,
inside the reserved range, under the text its name denotes. Call-flag writers and readers must use the same bit."""
import re
from program import AnalysisError, simple
from flow import eval_const, expr, return_expr, fold_expr, const_value, origin, defs, find_const
import flow

OPS = {'_ADD': '+', '_SUB': '-', '_MUL': '*', '_POW': '**', '_SHL': '<<', '_SHR': '>>', '_REM': '%', '_EQ': '==', '_NEQ': '!=',
       '_GT': '>', '_GE': '>=', '_DIV': '/', '_LT': '<', '_LE': '<=', '_CMP': '<=>', '_TEQ': '===', '_INDEX': '[]',
       '_INDEX_ASSIGN': '[]=', '_ENUM_FUNC': '/enum', '_ALIAS_METHOD': '/alias_method', '_METHOD_MISSING': 'method_missing', '_NAME': '/name'}

def consts_of(p, ty, ret):
    r = {}
    for f in p.fns:
        if f.kind == 'const' and f.self_type == ty and simple(f.ret) == ret and '{' not in f.header and '#' not in f.key:
            v = eval_const(p, f)
            if not isinstance(v, int):
                raise AnalysisError('cannot fold constant %s' % f.key)
            r[f.key.split('::')[-1]] = (v, f)
    return r

def distinct(ctx, space, table):
    seen = {}
    for n, (v, f) in sorted(table.items()):
        if v in seen:
            ctx.bad('distinct codes: ' + space, '%s:%s=%s' % (space, min(n, seen[v]), max(n, seen[v])),
                    '%s %s and %s share code %d' % (space, seen[v], n, v), f.loc() if f else '')
        else:
            seen[v] = n
            ctx.ok('distinct codes: ' + space, '%s=%d' % (n, v))

def file_consts(p, crate, mod, pat):
    r = {}
    for (c, h), f in p.consts.items():
        m = re.fullmatch(re.escape(mod) + r'::(\w+)', h)
        if c == crate and m and re.match(pat, m.group(1)):
            v = eval_const(p, f)
            if not isinstance(v, int):
                raise AnalysisError('cannot fold constant %s' % h)
            r[m.group(1)] = (v, f)
    return r

def masks_of(p, f):
    """(mask, value, positive?) of a predicate 'x & M == V' / '!= V' / 'x == V' on its single receiver"""
    e = return_expr(p, f)
    if e is None or e[0] != 'bin' or e[1] not in ('Eq', 'Ne'):
        return None
    l, r = e[2], e[3]
    if l[0] == 'int':
        l, r = r, l
    if r[0] != 'int':
        return None
    if l[0] == 'bin' and l[1] == 'BitAnd':
        m = l[3] if l[3][0] == 'int' else l[2]
        if m[0] != 'int':
            return None
        return m[1], r[1], e[1] == 'Eq'
    return 0xffffffffffffffff, r[1], e[1] == 'Eq'

def run(ctx):
    p = ctx.p
    kinds = consts_of(p, 'ObjKind', 'u8')
    distinct(ctx, 'object kind', kinds)
    ctx.floor('distinct codes: object kind', 18)
    inst = consts_of(p, 'Inst', 'u8')
    distinct(ctx, 'instruction', inst)
    ctx.floor('distinct codes: instruction', 90)
    perf = consts_of(p, 'Perf', 'u8')
    distinct(ctx, 'profiler pseudo code', dict(perf, **{'Inst::' + k: v for k, v in inst.items()}) if perf else {})
    # identifiers
    ids = consts_of(p, 'IdentId', 'IdentId')
    distinct(ctx, 'predefined identifier', ids)
    ctx.floor('distinct codes: predefined identifier', 25)
    identifiers(ctx, ids)
    argflags(ctx)
    # flag bits
    for space, tab in (('frame flag', file_consts(p, 'ruruby', 'vm::executor::frame', 'FLG_')),
                       ('class flag', file_consts(p, 'ruruby', 'value::class', '(IS_MODULE|INCLUDED|HAS_PREPEND)'))):
        nz = {k: v for k, v in tab.items() if v[0] != 0}
        distinct(ctx, space, nz)
        ctx.floor('distinct codes: ' + space, 3)
        for n, (v, f) in nz.items():
            if v & (v - 1):
                ctx.bad('single bit: ' + space, '%s:%s' % (space, n), '%s %s = %#x is not one bit' % (space, n, v), f.loc())
            else:
                ctx.ok('single bit: ' + space, n)
    flag_users(ctx)
    immediates(ctx)
    kind_packing(ctx, kinds)

def flag_users(ctx):
    """class-flag setters and testers use the same bit"""
    p = ctx.p
    pairs = [('ClassFlags', 'set_include', 'is_included'), ('ClassFlags', 'set_prepend', 'has_prepend'), ('EnvFrame', 'set_module_function', 'is_module_function')]
    for ty, w, r in pairs:
        fw, fr = p.find(ty, w), p.find(ty, r)
        if not fw or not fr:
            continue
        bw, br = bitconsts(p, fw[0]), bitconsts(p, fr[0])
        if bw and br and bw == br:
            ctx.ok('flag writer/reader agreement', '%s::%s / %s bit %s' % (ty, w, r, bw))
        elif bw and br:
            ctx.bad('flag writer/reader agreement', '%s::%s' % (ty, w), '%s::%s sets %s but %s tests %s' % (ty, w, bw, r, br), fw[0].loc())

def bitconsts(p, f):
    out = set()
    for b, i, s in f.stmts():
        if s.kind == 'assign' and s.rv.kind == 'bin' and s.rv.a in ('BitAnd', 'BitOr', 'Add', 'CheckedAdd'):
            for o in s.rv.ops:
                if o.kind == 'const':
                    v = const_value(p, o, f.crate)
                    if isinstance(v, int):
                        out.add(v)
    return out

def identifiers(ctx, ids):
    p = ctx.p
    reg = {}
    ctor = None
    for f in p.fns:
        if f.kind != 'fn':
            continue
        for b, t in f.calls():
            if any(g.self_type == 'IdentifierTable' and g.name == 'set_ident_id' for g in p.resolve(t.func, f.crate)):
                ctor = f
                k, d, pr = origin(f, t.args[1])
                text = d.text if k == 'const' else None
                k2, d2, pr2 = origin(f, t.args[2])
                name = d2.path.split('::')[-1] if k2 == 'const' and d2.path else None
                if text is None or name is None:
                    raise AnalysisError('identifier registration with non-constant arguments in %s' % f.key)
                m = re.match(r'^"(.*)"$', text)
                reg.setdefault(name, []).append((m.group(1), t.span))
    if ctor is None:
        raise AnalysisError('anchor not found: registrations of predefined identifiers')
    texts = {}
    for name in sorted(ids):
        l = reg.get(name, [])
        if len(l) != 1:
            ctx.bad('identifier registered once', 'reg:' + name, 'predefined identifier %s is registered %d times' % (name, len(l)), ids[name][1].loc())
            continue
        ctx.ok('identifier registered once', name)
        text, span = l[0]
        want = OPS.get(name)
        norm = lambda s: re.sub(r'[^a-z0-9]', '', s.lower())
        good = text == want if want is not None else norm(text) == norm(name) and norm(name) != ''
        if good:
            ctx.ok('identifier text', '%s -> %s' % (name, text))
        else:
            ctx.bad('identifier text', 'text:' + name, 'predefined identifier %s is registered as "%s"%s' % (name, text, ', expected "%s"' % want if want else ''), span)
        if text in texts:
            ctx.bad('identifier text distinct', 'dup:' + text, '%s and %s are both registered as "%s"' % (texts[text], name, text), span)
        texts[text] = name
    for name in reg:
        if name not in ids:
            raise AnalysisError('registered identifier %s is not a folded constant' % name)
    # reserved range: vec![..; N] in the constructor, new ids are allocated at table.len()
    n = None
    for b, t in ctor.calls():
        if t.func and 'from_elem' in t.func:
            n = const_value(p, t.args[1], ctor.crate)
    if n is None:
        raise AnalysisError('reserved size of the identifier table not found in %s' % ctor.key)
    for name, (v, f) in ids.items():
        if 0 < v < n:
            ctx.ok('identifier inside reserved range', '%s=%d < %d' % (name, v, n))
        else:
            ctx.bad('identifier inside reserved range', 'range:' + name, 'predefined identifier %s = %d is outside the reserved range 1..%d and may be reallocated' % (name, v, n), f.loc())
    # both directions of the table are filled from the same pair
    st = p.find('IdentifierTable', 'set_ident_id')[0]
    ins = [t for b, t in st.calls() if t.func and '::insert' in t.func]
    idx = [t for b, t in st.calls() if t.func and ('index_mut' in t.func or 'IndexMut' in t.func)]
    if ins and idx:
        ctx.ok('identifier table filled in both directions', st.key)
    else:
        ctx.bad('identifier table filled in both directions', 'set_ident_id', 'set_ident_id does not fill both the name table and the reverse table', st.loc())
    # allocation of further ids: number = table.len(), and the table grows by exactly one
    for g in [f for f in p.fns if f.self_type == 'IdentifierTable' and f.kind == 'fn' and f.name.startswith('get_ident_id')]:
        fresh = [t for b, t in g.calls() if t.func and re.search(r'IdentId as .*From<u32>|IdentId>?::from', t.func)]
        if not fresh:
            if any(any(h.self_type == 'IdentifierTable' for h in p.resolve(t.func, g.crate)) for b, t in g.calls()):
                ctx.ok('fresh identifiers are table length', g.key + ' (delegates)')
                continue
            raise AnalysisError('allocation of identifiers not recognised in %s' % g.key)
        for t in fresh:
            k, d, pr = origin(g, t.args[0])
            lenok = k == 'call' and 'len' in d[1].func
            pushes = [(b, x) for b, x in g.calls() if x.func and x.func.endswith('::push')]
            rev = [(b, x) for b, x in g.calls() if x.func and '::insert' in x.func]
            if lenok and len(pushes) == 1 and len(rev) == 1 and d[0] in flow.reachable(g, [0]) and \
               flow.dominates(g, d[0], pushes[0][0]):
                ctx.ok('fresh identifiers are table length', g.key)
            else:
                ctx.bad('fresh identifiers are table length', 'alloc:' + g.name, '%s: a new identifier is not the table length followed by exactly one push and one reverse entry' % g.key, t.span)

def argflags(ctx):
    p = ctx.p
    readers = {}
    for f in p.fns:
        if f.self_type == 'ArgFlag' and f.kind == 'fn' and f.name.startswith('has_'):
            m = masks_of(p, f)
            if m is None:
                raise AnalysisError('cannot recover the bit tested by ArgFlag::%s' % f.name)
            mask = m[0]
            if mask & (mask - 1) or mask == 0 or not ((m[1] == 0 and not m[2]) or (m[1] == mask and m[2])):
                ctx.bad('call flag reader tests one bit', f.name, 'ArgFlag::%s tests mask %#x against %#x' % (f.name, mask, m[1]), f.loc())
            else:
                ctx.ok('call flag reader tests one bit', '%s %#x' % (f.name, mask))
            readers[f.name] = (mask, f)
    ctx.floor('call flag reader tests one bit', 5)
    distinct(ctx, 'call flag', readers)
    new = p.find('ArgFlag', 'new')
    if not new:
        raise AnalysisError('ArgFlag::new not found')
    new = new[0]
    # parameter -> constant added when it is true: block of the true arm assigns a constant that the false arm assigns as 0
    param = {}
    for b in new.normal_blocks():
        t = new.blocks[b].term
        if t.kind == 'switch':
            k, a, pr = origin(new, t.op)
            if k != 'arg':
                raise AnalysisError('ArgFlag::new branches on something else than a parameter')
            zero = next(x for kk, x in t.targets if kk == 0)
            one = next(x for kk, x in t.targets if kk != 0)
            def val(bb):
                for s in new.blocks[bb].stmts:
                    if s.kind == 'assign' and s.rv.kind == 'use' and s.rv.ops[0].kind == 'const':
                        v = const_value(p, s.rv.ops[0], new.crate)
                        if v is not None:
                            return v
                    if s.kind == 'assign' and s.rv.kind == 'bin':
                        for o in s.rv.ops:
                            v = const_value(p, o, new.crate) if o.kind == 'const' else None
                            if v is not None:
                                return v
            param[a] = (val(one), val(zero))
    order = ['has_hash_arg', 'has_block_arg', 'has_delegate', 'has_hash_splat', 'has_splat']
    if len(param) == 5:
        for i, r in enumerate(order):
            on, off = param[i + 1]
            if on == readers[r][0] and not off:
                ctx.ok('call flag writer matches reader', '%s bit %#x' % (r, on))
            else:
                ctx.bad('call flag writer matches reader', 'new:' + r, 'ArgFlag::new parameter %d sets %r/%r, %s tests %#x' % (i + 1, on, off, r, readers[r][0]), new.loc())
    else:
        # another formulation (e.g. shifted bool casts): fall back to the set of constants
        cs = bitconsts(p, new) - {0}
        want = {m for m, _ in readers.values()}
        if cs and not cs <= want | {m.bit_length() - 1 for m in want}:
            ctx.bad('call flag writer matches reader', 'new', 'ArgFlag::new uses constants %s not tested by any reader' % sorted(cs), new.loc())
        else:
            ctx.ok('call flag writer matches reader', 'constants %s' % sorted(cs))
    for name, r in (('splat', 'has_splat'), ('default', None)):
        f = p.find('ArgFlag', name)
        if f:
            e = return_expr(p, f[0])
            v = e[1] if e and e[0] == 'int' else None
            want = readers[r][0] if r else 0
            if v == want:
                ctx.ok('call flag writer matches reader', '%s() = %d' % (name, v))
            else:
                ctx.bad('call flag writer matches reader', name, 'ArgFlag::%s() yields %r, %s tests %#x' % (name, v, r, want), f[0].loc())
    # serialisation is the identity
    for name in ('to_u8', 'from_u8'):
        f = p.find('ArgFlag', name)
        if f:
            e = return_expr(p, f[0])
            if e and e[0] == 'arg':
                ctx.ok('call flag serialisation is the identity', name)
            else:
                ctx.bad('call flag serialisation is the identity', name, 'ArgFlag::%s is not the identity: %r' % (name, e), f[0].loc())

def immediates(ctx):
    p = ctx.p
    C = {}
    for n in ('UNINITIALIZED', 'FALSE_VALUE', 'NIL_VALUE', 'TRUE_VALUE', 'TAG_SYMBOL', 'ZERO'):
        f = p.consts.get(('ruruby', 'value::value::' + n))
        if f is None:
            raise AnalysisError('immediate constant %s not found' % n)
        C[n] = (eval_const(p, f), f)
    distinct(ctx, 'immediate encoding', C)
    ctx.floor('distinct codes: immediate encoding', 6)
    pred = {}
    for n in ('is_fnum', 'is_packed_value', 'is_packed_num', 'is_packed_symbol', 'is_nil', 'is_uninitialized'):
        f = p.find('Value', n)
        if not f:
            raise AnalysisError('predicate Value::%s not found' % n)
        m = masks_of(p, f[0])
        if m is None:
            raise AnalysisError('cannot recover the mask of Value::%s' % n)
        pred[n] = (m, f[0])
    def holds(n, x):
        (m, v, pos), f = pred[n]
        return ((x & m) == v) == pos
    want = {'is_fnum': [], 'is_packed_num': ['ZERO'], 'is_packed_symbol': ['TAG_SYMBOL'], 'is_nil': ['NIL_VALUE'], 'is_uninitialized': ['UNINITIALIZED'],
            'is_packed_value': list(C)}
    for n, l in want.items():
        for c, (v, f) in C.items():
            if holds(n, v) == (c in l):
                ctx.ok('immediate classified correctly', '%s(%s) = %s' % (n, c, c in l))
            else:
                ctx.bad('immediate classified correctly', '%s:%s' % (n, c), 'Value::%s(%s=%#x) is %s' % (n, c, v, holds(n, v)), pred[n][1].loc())
    # any fixnum (bit 0 set) is a packed number and never symbol / nil / uninitialized, for every payload
    (mf, vf, pf), ff = pred['is_fnum']
    for n in ('is_packed_symbol', 'is_nil', 'is_uninitialized'):
        (m, v, pos), f = pred[n]
        if pf and pos and (mf & m) and (vf & m) != (v & mf):
            ctx.ok('predicates exclude each other', 'is_fnum / ' + n)
        else:
            ctx.bad('predicates exclude each other', n, 'some value satisfies both is_fnum and %s' % n, f.loc())
    # constructors produce exactly the constants
    for n, c in (('nil', 'NIL_VALUE'), ('true_val', 'TRUE_VALUE'), ('false_val', 'FALSE_VALUE'), ('uninitialized', 'UNINITIALIZED')):
        f = p.find('Value', n)
        if not f:
            continue
        found = set()
        for b, t in f[0].calls():
            for a in t.args:
                k, d, pr = origin(f[0], a)
                if k == 'const':
                    v = const_value(p, d, 'ruruby')
                    if isinstance(v, int):
                        found.add(v)
        for b, i, s in f[0].stmts():
            if s.kind == 'assign':
                for o in s.rv.ops:
                    if o.kind == 'const':
                        v = const_value(p, o, 'ruruby')
                        if isinstance(v, int):
                            found.add(v)
        if found == {C[c][0]}:
            ctx.ok('immediate constructor', '%s -> %s' % (n, c))
        elif found:
            ctx.bad('immediate constructor', n, 'Value::%s builds %s instead of %s' % (n, ['%#x' % x for x in sorted(found)], c), f[0].loc())
    # truthiness: false exactly for nil and false among all immediates
    f = p.find('Value', 'to_bool')
    if not f:
        raise AnalysisError('Value::to_bool not found')
    e = return_expr(p, f[0])
    if e is None:
        ctx.notes.append('truthiness of immediates not recovered as an expression')
    else:
        for c, (v, _) in C.items():
            got = fold_expr(e, v)
            if got is None:
                raise AnalysisError('cannot fold Value::to_bool over %s: %r' % (c, e))
            if c == 'UNINITIALIZED':
                continue     # never visible to programs
            want = c not in ('NIL_VALUE', 'FALSE_VALUE')
            if bool(got) == want:
                ctx.ok('truthiness of immediates', '%s -> %s' % (c, bool(got)))
            else:
                ctx.bad('truthiness of immediates', c, 'Value::to_bool(%s) is %s' % (c, bool(got)), f[0].loc())

def kind_packing(ctx, kinds):
    """the kind stored in an object header is the kind read back: RVFlag::new shifts by k, kind() shifts back by k, and kind codes fit"""
    p = ctx.p
    new = p.find('RVFlag', 'new')
    rd = p.find('RValue', 'kind')
    if not new or not rd:
        raise AnalysisError('RVFlag::new / RValue::kind not found')
    sh = lambda f, o: {const_value(p, s.rv.ops[1], f.crate) for b, i, s in f.stmts() if s.kind == 'assign' and s.rv.kind == 'bin' and s.rv.a == o and s.rv.ops[1].kind == 'const'}
    a, b = sh(new[0], 'Shl'), sh(rd[0], 'Shr')
    if not a or not b:
        raise AnalysisError('object header packing not recognised')
    if a == b:
        ctx.ok('object header packs and unpacks the kind alike', 'shift %s' % sorted(a))
    else:
        ctx.bad('object header packs and unpacks the kind alike', 'kind shift', 'RVFlag::new shifts by %s, RValue::kind by %s' % (a, b), rd[0].loc())
