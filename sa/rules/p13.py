"""Exceptions and non-local exits of user code are never dropped. For every call that can run Ruby code and whose result can hold an error
(and every place where the outcome of a fiber is picked up), the error is followed through all paths of the calling function - moves, `?`,
matches, conversions, adaptors, closures and helpers that take it over - and must end up returned to the caller or stored as the fiber's
outcome. A path on which it is discarded, replaced or answered with an abort is a violation unless it belongs to a construct whose meaning
is to handle it (rescue, loop, break out of a builtin's block, return, end of an enumeration), under the condition that makes it that."""
import re
import facts, errors
from program import AnalysisError, simple, strip_ref, drop_generics

ANY = None
def allow_table(p):
    """function -> [(kinds or ANY, required facts, meaning)]"""
    return {
        'VM::run_loop': [({'MethodReturn'}, {('ISeqInfo::is_method', True)}, 'return reaches the method it returns from'),
                         ({'Internal'}, {'panic'}, 'internal error reports a bug of the interpreter itself'),
                         ({'ParseErr', 'RuntimeErr', 'Exception', 'SystemExit', 'None'}, {('entry', True)}, 'rescue/ensure clause of the frame covers the position')],
        'VM::run_context_main': [({'BlockReturn'}, set(), 'break out of the block of the call that just ended'),
                                 ({'MethodReturn'}, {('ISeqInfo::is_method', True)}, 'return reaches the method it returns from')],
        'VM::exec_native': [({'BlockReturn'}, set(), 'break out of the block given to a builtin')],
        'builtin::kernel::loop_': [({'BlockReturn'}, set(), 'break out of loop'),
                                   ({'RuntimeErr'}, {('class', 'StopIteration')}, 'loop ends on StopIteration'),
                                   ({'Exception'}, {('equals "StopIteration"', True)}, 'loop ends on StopIteration')],
        'builtin::enumerator::each': [({'RuntimeErr'}, {('class', 'StopIteration')}, 'end of the enumeration')],
        'builtin::enumerator::map': [({'RuntimeErr'}, {('class', 'StopIteration')}, 'end of the enumeration')],
        'builtin::enumerator::with_index': [({'RuntimeErr'}, {('class', 'StopIteration')}, 'end of the enumeration')],
        'builtin::kernel::assert_error': [(ANY, set(), 'assertion that the block raises')],
        'coroutine::stack::new_context': [({'MethodReturn'}, set(), 'return cannot leave a fiber: LocalJumpError')],
        'VM::invoke_repl': [(ANY, set(), 'interactive prompt reports the error')],
        'VM::new': [(ANY, set(), 'start-up script of the interpreter itself')],
    }

CALLFN = re.compile(r'as (?:std|core)::ops::Fn(Mut|Once)?<.*>>::call(_mut|_once)?$')   # a function value: could be anything
CLONE = re.compile(r'(mem::(replace|take)(::<.*>)?|ptr::read(::<.*>)?|as std::clone::Clone>::clone)$')

def variants(p, name):
    r = [n for it in p.items.get(name, []) if it.kind == 'enum' for n, _ in it.variants]
    if not r:
        raise AnalysisError('enum %s not found' % name)
    return r

def field_errors(p):
    """(struct, field) pairs that keep the outcome of a call"""
    return {(it.name, n) for its in p.items.values() for it in its if it.kind == 'struct'
            for n, t in it.fields if re.search(r'\b(VMResult|RubyError)\b', t) and re.search(r'VMResult|Result<', t) and not re.search(r'\bFn\b|fn\s*\(|->', t)}

def picks(p, f, fe):
    """calls that take a stored outcome: (block, term)"""
    from flow import defs
    for b, t in f.calls():
        if t.func and CLONE.search(t.func) and t.args and t.args[0].place is not None and not t.dest.proj and t.succ:
            if errors.err_path(f.types.get(t.dest.local, '')) is None:
                continue
            l, n = t.args[0].place.local, 0
            while n < 6:
                n += 1
                ds = defs(f).get(l, [])
                if len(ds) != 1 or getattr(ds[0][2], 'kind', '') != 'ref':
                    break
                pl = ds[0][2].ops[0].place
                if any(x in fe for x in facts.fields(p, f, pl) or []):
                    yield b, t
                    break
                if pl.proj not in ((), ('*',)):
                    break
                l = pl.local

def run(ctx):
    p = ctx.p
    table = allow_table(p)
    fe = field_errors(p)
    F = errors.Flow(p, variants(p, 'RubyErrorKind'), variants(p, 'RuntimeErrKind'), fe)
    if not fe:
        raise AnalysisError('field keeping the outcome of a fiber not found')
    pk = {}
    for f in p.fns:
        for b, t in picks(p, f, fe):
            pk.setdefault(f.key, set()).add(b)
    ctx.seen('places where the outcome of a fiber is picked up', sum(len(v) for v in pk.values()))
    ctx.floor('places where the outcome of a fiber is picked up', 2)
    mr = facts.may_run(p) | facts.reach_callers(p, set(pk))
    cg = facts.call_graph(p)
    callers = {}
    for k, cs in cg.items():
        for c in cs:
            callers.setdefault(c, set()).add(k)
    for f in p.fns:      # a closure belongs to the function around it
        m = re.match(r'(.*)::\{closure#\d+\}$', f.key)
        if m:
            callers.setdefault(f.key, set()).add(m.group(1))
    for k in table:
        if k not in p.by_key:
            ctx.notes.append('%s does not exist' % k)
    def owners(k):
        """entries of the table that may apply: the function itself, or the ones all its uses belong to"""
        seen, todo, own = {k}, [k], set()
        while todo:
            x = todo.pop()
            if x in table:
                own.add(x)
                continue
            cs = callers.get(x, set())
            if not cs or len(seen) > 30:
                return set()
            for c in cs:
                if c not in seen:
                    seen.add(c)
                    todo.append(c)
        return own
    def allowed(k, l):
        ks = next((x[1] for x in l.facts if x[0] == 'kind'), frozenset(F.kinds))
        cl = next((x[1] for x in l.facts if x[0] == 'class'), frozenset(F.sub))
        own = owners(k)
        def ok(o):
            for kinds, need, why in table[o]:
                if kinds is not ANY and not ks <= kinds:
                    continue
                if l.at in ('panic', 'unwrap') and kinds is not ANY and 'panic' not in need:
                    continue
                if all(n == 'panic' and l.at == 'panic' or n in l.facts or (n[0] == 'class' and cl == {n[1]}) for n in need):
                    return why
            return None
        rs = [ok(o) for o in own]
        return rs[0] if rs and all(rs) else None
    def skip(f):
        return (f.file or '').endswith('/tests.rs') or (f.file or '').endswith('main.rs')
    indirect = 0
    for f in sorted(p.fns, key=lambda f: f.key):
        if skip(f):
            continue
        for b, t in f.calls():
            if not t.succ or t.dest is None or f.blocks[t.succ[0]].cleanup or f.blocks[b].cleanup:
                continue
            pick = b in pk.get(f.key, ())
            ty = f.types.get(t.dest.local, '') if not t.dest.proj else ''
            if t.dest.proj:
                # written straight into a place: only the fiber's outcome may live there
                if 'Result<' in ret_type(p, f, t) and 'RubyError' in ret_type(p, f, t) and any(g.key in mr for g in p.callees(f, t)):
                    if any(x in fe for x in facts.fields(p, f, t.dest) or []):
                        ctx.ok('calls whose error is accounted for', (f.key, t.span))
                    elif '*' in t.dest.proj:
                        ctx.bad('calls whose error is accounted for', (f.key, (t.func or '')[-40:]), '%s stores the outcome of a call where it is not followed' % f.key, f.loc(t.span))
                continue
            pth = errors.err_path(ty)
            if pth is None:
                continue
            cs = p.callees(f, t)
            if not pick:
                opaque = t.func and not cs and CALLFN.search(t.func)
                if t.func and not opaque and not any(g.key in mr for g in cs):
                    continue
                # an error handed to a library adaptor is followed from where it came from
                if t.func and not p.resolve(t.func, f.crate) and any(a.place is not None and errors.err_path(f.types.get(a.place.local, '')) is not None for a in t.args):
                    continue
            if not t.func:
                indirect += 1
            outs, losses = F.follow(f, t.succ[0], t.dest.local, pth, pth == ())
            name = drop_generics(t.func).rsplit('>::', 1)[-1].rsplit('::', 1)[-1] if t.func else 'a builtin function'
            bad = None
            for l in losses:
                w = allowed(f.key, l)
                if w is None:
                    bad = l
                else:
                    ctx.ok('handling constructs', (f.key, w))
            if bad is None and 'elsewhere' in outs:
                bad = errors.Lost(f, 'stored where it is not followed', t.span, frozenset(), 'store')
            if bad is None and not outs and not losses:
                bad = errors.Lost(f, 'never leaves the function', t.span, frozenset(), 'none')
            if bad is None:
                ctx.ok('calls whose error is accounted for', (f.key, t.span))
            else:
                fs = sorted('%s=%s' % (x[0], '/'.join(sorted(x[1])) if isinstance(x[1], frozenset) else x[1]) for x in bad.facts)
                ctx.bad('calls whose error is accounted for', (f.key, name, bad.why), 'the error of the call of %s in %s is %s (%s)%s' % (
                    name, f.key, bad.why, bad.f.key, ' where ' + ', '.join(fs) if fs else ''), f.loc(bad.span if 'rustc' not in str(bad.span) else t.span))
    ctx.floor('calls whose error is accounted for', 200)
    ctx.floor('handling constructs', 8)
    if not indirect:
        raise AnalysisError('indirect call of builtin functions not found')
    ctx.seen('steps of error values followed', F.uses)
    ctx.assume('the value carried along with an Exception, break or return (globals.val) is not followed, only the outcome itself')
    ctx.assume('a StopIteration raised natively inside the method an Enumerator runs counts as the end of that enumeration')
    ctx.assume('the program entry (main.rs) prints the error; which rescue clause matches is decided by compiled Ruby code')

def ret_type(p, f, t):
    gs = p.resolve(t.func, f.crate) if t.func else []
    return ' '.join(g.types.get(0, '') or str(g.ret) for g in gs)
