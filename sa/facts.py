"""Facts about the interpreter shared by several rules: struct fields of places, mutation sites, value provenance, code that may run Ruby."""
import re
from program import AnalysisError, simple, strip_ref, drop_generics, split_qself, path_segments
from flow import defs, single_def

# ------------------------------------------------------------ struct fields
def struct_item(p, name, idx=None):
    for it in p.items.get(name, []):
        if it.kind in ('struct', 'union') and (idx is None or idx < len(it.fields)):
            return it
    return None

def field_index(p, struct, field):
    it = struct_item(p, struct)
    if it is None:
        raise AnalysisError('struct %s not found' % struct)
    for i, (n, t) in enumerate(it.fields):
        if n == field:
            return i
    raise AnalysisError('field %s.%s not found' % (struct, field))

def deref_type(t):
    t = t.strip()
    m = re.match(r"(?:&(?:'\w+ )?(?:mut )?|\*(?:mut|const) )", t)
    if m:
        return t[m.end():]
    m = re.match(r'(?:std::boxed::)?Box<(.*)>$', t)
    return m.group(1) if m else t

def walk(p, f, place):
    """[(type before projection, projection, (struct, field) or None)] and the final type"""
    out = []
    t = f.types.get(place.local, '')
    var = None
    for x in place.proj:
        if x == '*':
            out.append((t, x, None))
            t = deref_type(t)
            var = None
        elif x[0] == 'f':
            fld = None
            s = simple(t)
            if var is None:
                it = struct_item(p, s, x[1])
                fld = (s, it.fields[x[1]][0] if it else str(x[1]))
            else:
                fld = (s + '::' + var, str(x[1]))
                for it in p.items.get(s, []):
                    if it.kind == 'enum':
                        for vn, vf in it.variants:
                            if vn == var and x[1] < len(vf):
                                fld = (s + '::' + var, vf[x[1]][0])
            out.append((t, x, fld))
            t = x[2]
            var = None
        elif x[0] == 'as':
            out.append((t, x, None))
            var = x[1]
        else:
            out.append((t, x, None))
            m = re.match(r'(?:\[(.*?)(?:; .*)?\]$)|(?:.*Vec<(.*)>$)', t)
            t = (m.group(1) or m.group(2)) if m else ''
            var = None
    return out, t

def fields(p, f, place):
    return [x[2] for x in walk(p, f, place)[0] if x[2] is not None]

def place_type(p, f, place):
    return walk(p, f, place)[1]

# ------------------------------------------------------------ mutation sites
READ_ONLY = {'get_mut', 'iter_mut', 'values_mut', 'get', 'iter', 'keys', 'values', 'len', 'contains_key', 'contains', 'is_empty', 'deref', 'deref_mut',
             'as_ref', 'as_mut', 'as_deref', 'as_deref_mut', 'clone', 'index', 'last', 'last_mut', 'first', 'borrow', 'borrow_mut', 'get_index', 'get_full', 'get_key_value',
             'into_iter', 'next', 'as_mut_slice', 'as_slice', 'index_mut', 'mark'}

def last_seg(fn):
    fn = fn or ''
    if fn.startswith('<'):
        fn = split_qself(fn)[2] or fn
    segs = [x for x in (drop_generics(s) for s in path_segments(fn)) if x and not x.startswith('<')]
    return segs[-1] if segs else ''

def mutations(p, f, want):
    """sites in f that write a field in `want` (set of (struct, field)): [(block, idx, place, field, how)]; idx == len(stmts) is the terminator.
    A mutable borrow counts when it is handed to something that is not known to only read, or written through."""
    out = []
    def borrowed_by(place):
        fl = fields(p, f, place)
        return [x for x in fl if x in want]
    refs = {}          # local holding &mut to a wanted field (directly)
    for b, i, s in f.stmts():
        if s.kind != 'assign':
            continue
        hit = borrowed_by(s.place)
        if hit:
            out.append((b, i, s.place, hit[-1], 'write'))
        if s.rv.kind in ('ref', 'addr') and s.rv.a in ('mut', 'raw_mut', True) or (s.rv.kind in ('ref', 'addr') and 'mut' in str(s.rv.a)):
            h = borrowed_by(s.rv.ops[0].place)
            if h and not s.place.proj:
                refs[s.place.local] = (h[-1], s.rv.ops[0].place)
    for b, t in f.calls():
        n = len(f.blocks[b].stmts)
        if not t.dest.proj or True:
            h = borrowed_by(t.dest)
            if h:
                out.append((b, n, t.dest, h[-1], 'write'))
    # propagate through reborrows and calls returning a reference into the field
    if refs:
        ch = True
        while ch:
            ch = False
            for b, i, s in f.stmts():
                if s.kind == 'assign' and not s.place.proj and s.place.local not in refs and s.rv.kind in ('ref', 'addr', 'use', 'cast') and s.rv.ops and s.rv.ops[0].place is not None:
                    l = s.rv.ops[0].place.local
                    if l in refs and '&' in f.types.get(s.place.local, '') or l in refs and 'Option<&mut' in f.types.get(s.place.local, ''):
                        refs[s.place.local] = refs[l]
                        ch = True
            for b, t in f.calls():
                if t.dest.proj or t.dest.local in refs or not t.args:
                    continue
                a = t.args[0]
                if a.place is not None and a.place.local in refs and '&mut' in f.types.get(t.dest.local, ''):
                    refs[t.dest.local] = refs[a.place.local]
                    ch = True
        for b, i, s in f.stmts():
            if s.kind == 'assign' and s.place.proj and s.place.local in refs and s.place.proj[0] == '*' or \
                    (s.kind == 'assign' and s.place.proj and s.place.local in refs and '*' in s.place.proj):
                out.append((b, i, refs[s.place.local][1], refs[s.place.local][0], 'write through reference'))
        for b, t in f.calls():
            for k, a in enumerate(t.args):
                if a.place is not None and not a.place.proj and a.place.local in refs:
                    g = p.resolve(t.func, f.crate) if t.func else []
                    if g:
                        continue       # a workspace method: analysed on its own
                    if last_seg(t.func) not in READ_ONLY and '&mut' in f.types.get(a.place.local, ''):
                        out.append((b, len(f.blocks[b].stmts), refs[a.place.local][1], refs[a.place.local][0], last_seg(t.func)))
    return out

# ------------------------------------------------------------ provenance
PASS = re.compile(r'(::deref$|::deref_mut$|::into$|::from$|::clone$|as std::ops::Deref(Mut)?>::deref(_mut)?$|as std::clone::Clone>::clone$|as std::convert::Into<.*>>::into$|as std::convert::From<.*>>::from$'
                  r'|::as_class$|::as_mut_class$|::as_module$|::rvalue$|::rvalue_mut$|::as_mut_rvalue$|::into_module$|::unwrap$|::expect$|as std::ops::Try>::branch$|Module::new$|Module::new_unchecked$|Module::get$)')

def sources(p, f, local, passes=PASS, summaries=None, _seen=None):
    """where the object denoted by `local` may come from: {('arg', n), ('call', key, block), ('other', text)} following copies, references,
    payload projections, deref-like calls and (if summaries is given) functions that return one of their arguments"""
    out = set()
    seen = set() if _seen is None else _seen
    todo = [local]
    while todo:
        l = todo.pop()
        if l in seen:
            continue
        seen.add(l)
        ds = defs(f).get(l, [])
        if not ds:
            out.add(('other', 'undefined'))
        for d in ds:
            if d[0] == 'arg':
                out.add(('arg', l))
                continue
            rv = d[2]
            if hasattr(rv, 'func'):
                fn = rv.func or ''
                if rv.args and PASS.search(drop_generics(fn) if not fn.startswith('<') else fn) and rv.args[0].place is not None:
                    todo.append(rv.args[0].place.local)
                    continue
                gs = p.resolve(fn, f.crate) if fn else []
                if gs and summaries is not None:
                    for g in gs:
                        for s in summaries.get(g.key, {('other', 'unknown')}):
                            if s[0] == 'arg':
                                k = g.args.index(s[1])
                                if k < len(rv.args) and rv.args[k].place is not None:
                                    todo.append(rv.args[k].place.local)
                                else:
                                    out.add(('other', 'constant'))
                            else:
                                out.add(s)
                    continue
                out.add(('call', gs[0].key if gs else fn, d[0]))
            elif rv.kind in ('use', 'cast', 'ref', 'addr', 'fake') and rv.ops:
                o = rv.ops[0]
                if o.place is None:
                    out.add(('other', 'constant'))
                elif any(x != '*' and x[0] in ('i', 'c') for x in o.place.proj):
                    out.add(('other', 'element'))
                else:
                    st = [x for x in o.place.proj if x != '*' and x[0] == 'f']
                    asn = [x for x in o.place.proj if x != '*' and x[0] == 'as']
                    if st and not asn:
                        t = simple(f.types.get(o.place.local, ''))
                        if t in ('Module', 'GCBox', 'Ref', 'ClassInfo') or t.startswith('('):
                            todo.append(o.place.local)
                        else:
                            out.add(('field', fields(p, f, o.place)[-1] if fields(p, f, o.place) else None))
                    else:
                        todo.append(o.place.local)
            elif rv.kind == 'agg' and len(rv.ops) == 1 and rv.ops[0].place is not None:
                todo.append(rv.ops[0].place.local)
            elif rv.kind == 'agg' and rv.ops:
                for o in rv.ops:
                    if o.place is not None:
                        todo.append(o.place.local)
            else:
                out.add(('other', rv.kind))
    return out

# ------------------------------------------------------------ code that may run Ruby
def may_run(p):
    """keys of functions that may (transitively) execute Ruby code or a builtin"""
    c = getattr(p, '_mayrun', None)
    if c is not None:
        return c
    base = {f.key for f in p.find('VM', 'run_context_main')}
    if not base:
        raise AnalysisError('interpreter loop not found')
    for f in p.fns:
        for b, t in f.calls():
            if t.func is None or not t.func:
                l = getattr(t, 'fplace', None)
                base.add(f.key) if l is None else None
    calls = call_graph(p)
    r = set(base)
    ch = True
    while ch:
        ch = False
        for k, cs in calls.items():
            if k not in r and cs & r:
                r.add(k)
                ch = True
    p._mayrun = r
    return r

def call_graph(p):
    c = getattr(p, '_cg', None)
    if c is None:
        c = {f.key: {g.key for b, t in f.calls() for g in p.callees(f, t)} for f in p.fns}
        p._cg = c
    return c

def reach_callers(p, base):
    """functions that may transitively call something in base (inclusive)"""
    calls = call_graph(p)
    r = set(base)
    ch = True
    while ch:
        ch = False
        for k, cs in calls.items():
            if k not in r and cs & r:
                r.add(k)
                ch = True
    return r

def operands(f):
    """every operand read by a function"""
    for b in f.blocks:
        blk = f.blocks[b]
        for s in blk.stmts:
            if s.kind == 'assign':
                yield from s.rv.ops
        t = blk.term
        if t.kind == 'call':
            yield from t.args
        elif t.kind == 'switch':
            yield t.op
