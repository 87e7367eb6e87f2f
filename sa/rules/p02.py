"""Objects a builtin created or received back from user code are reachable by the collector while user code runs. Forward dataflow over MIR:
each object-holding result of a call that allocates or may run Ruby code is an identity, followed through copies, wrappers, collections,
closures and helpers; it is rooted by the temporary root stack, the value stack, or by being stored in an object that is itself rooted. At
every call that may run Ruby code, no identity that a live local still holds may be without a root, unless this call hands it over as
receiver or argument; helper functions that keep a parameter across such a call put the obligation on their callers."""
import re
import facts
from program import drop_generics
from flow import live_in, defs, forward, operands_of
from rules.p13 import CALLFN

HOLD = re.compile(r'\b(Value|Array|Module|HashKey|IdentKey|MethodObjInfo|ProcInfo|FiberContext|RubyError)\b')
NOHOLD = re.compile(r'^(&(mut )?)*[\w:]*(VM|VMRef|Globals|GlobalsRef|Args2?|Block|ISeqRef)$|^std::result::Result<\(\), |ControlFlow<std::result::Result<std::convert::Infallible|^ruruby_common::RubyError$|^&')
ROOT = re.compile(r'(::|^)(temp_push|temp_extend_from_slice|temp_new\w*|stack_push|stack_push_args)$')
ROOTNAMES = {'temp_push', 'temp_extend_from_slice', 'stack_push', 'set_stack', 'stack_append'}
UNROOT = {'temp_pop_vec'}     # what this returns has just lost its root
CONTAINER = re.compile(r'(Vec|SmallVec|HashMap|HashSet|IndexMap|IndexSet|VecDeque|Index_?[Mm]ap\w*|FxIndexMap|FxHashSet)\b')

def holds(ty):
    if not ty:
        return False
    if 'Box<dyn' in ty or ty.startswith('for<') or ty.startswith('fn('):
        return False
    return bool(HOLD.search(re.sub(r"ruruby_common::RubyError|vm::executor::VM\b", '', ty))) and not re.match(r'^(&(mut )?)*[\w:]*(VM|VMRef|Globals|GlobalsRef|ISeqRef|Args2?)$', ty)

def run(ctx):
    p = ctx.p
    mr = facts.may_run(p) | facts.reach_callers(p, {f.key for f in p.find('FiberContext', 'resume')})
    alloc = {f.key for f in p.fns if f.name == 'pack' and f.self_type == 'RValue'}
    if not alloc:
        from program import AnalysisError
        raise AnalysisError('anchor not found: RValue::pack')
    makes = facts.reach_callers(p, alloc)
    def may(f, t):
        cs = p.callees(f, t)
        return any(g.key in mr for g in cs) or (t.func and not cs and bool(CALLFN.search(t.func))) or not t.func
    work = [f for f in p.fns if (f.file or '').startswith('ruruby/src/') and not (f.file or '').endswith('tests.rs') and any(may(f, t) for b, t in f.calls() if not f.blocks[b].cleanup) and not SKIP.search(f.key)]
    req = {}
    results = {}
    def analyse(f):
        live = live_in(f, discr=False)
        dd = defs(f)
        isparam = {l: i for i, l in enumerate(f.args)}
        def base(l, n=0):
            """local a reference local points at"""
            ds = dd.get(l, [])
            if n < 8 and len(ds) == 1 and ds[0][0] != 'arg' and getattr(ds[0][2], 'kind', '') in ('ref', 'use', 'addr'):
                o = ds[0][2].ops[0]
                if o.place is not None:
                    return base(o.place.local, n + 1) if o.place.local != l else l
            return l
        def core(i):
            return i[1] if i[0] == 'd' else i
        def safe(i, rooted):
            return i in rooted or core(i) in rooted
        init_ids = frozenset((l, ('p', i)) for l, i in isparam.items() if holds(f.types.get(l, '')) )
        init = (init_ids, frozenset())
        viol = {}
        succ = {b: [x for x in f.blocks[b].term.succ if not f.blocks[x].cleanup] for b in range(len(f.blocks)) if not f.blocks[b].cleanup}
        def reach(b, without=None):
            seen, todo = set(), [x for x in succ.get(b, ()) if x != without]
            while todo:
                x = todo.pop()
                if x not in seen:
                    seen.add(x)
                    todo += [y for y in succ.get(x, ()) if y != without]
            return seen
        rootloops = {}      # block of Iterator::next -> blocks that root the element in every turn of its loop, which runs no Ruby code
        elemroots = set()
        calls = [(b, t) for b, t in f.calls() if b in succ]
        roots = [b for b, t in calls if drop_generics(t.func or '').rsplit('::', 1)[-1] in ROOTNAMES]
        for n, t in calls if roots else ():
            if drop_generics(t.func or '').rsplit('::', 1)[-1] == 'next':
                loop = {x for x in reach(n) if n in reach(x)}
                if not any(b in loop and may(f, c) for b, c in calls):
                    rootloops[n] = [b for b in roots if b in loop and n not in reach(n, b)]
        stored = []
        contents = {}
        def captured(IN):
            del stored[:]
            for b in IN:
                if not f.blocks[b].cleanup:
                    transfer(b, IN[b], True)
            return list(stored)
        def get(ids, l):
            return {i for (x, i) in ids if x == l}
        def opids(ids, o):
            return get(ids, o.place.local) if o.place is not None else set()
        def transfer(b, st, record=False):
            ids, rooted = set(st[0]), set(st[1])
            blk = f.blocks[b]
            for s in blk.stmts:
                if s.kind != 'assign':
                    continue
                src = set()
                for o in s.rv.ops:
                    src |= opids(ids, o)
                if s.rv.kind in ('discr', 'len', 'binop', 'unop', 'cmp', 'cast_int'):
                    src = set()
                tl = s.place.local
                if not s.place.proj:
                    ids -= {x for x in ids if x[0] == tl}
                    if holds(f.types.get(tl, '')) or '&' in f.types.get(tl, '') or 'closure' in f.types.get(tl, ''):
                        ids |= {(tl, i) for i in src}
                else:
                    if '*' in s.place.proj:     # stored into what the pointer refers to
                        own = get(ids, tl)
                        if all(safe(i, rooted) or core(i)[0] == 'p' for i in own):
                            if HOLD.search(f.types.get(tl, '')) and not CONTAINER.search(f.types.get(base(tl), '')):
                                rooted |= src
                        bl = base(tl)
                        if bl != tl:
                            ids |= {(bl, i) for i in src}
                    else:
                        ids |= {(tl, i) for i in src}
            t = blk.term
            if t.kind == 'call':
                args = [opids(ids, a) for a in t.args]
                allids = set().union(*args) if args else set()
                gs = p.callees(f, t)
                name = drop_generics(t.func or '').rsplit('::', 1)[-1]
                m = may(f, t)
                if m:
                    nxt = [x for x in t.succ if not f.blocks[x].cleanup]
                    lv = set(live.get(nxt[0], ())) - {t.dest.local} if nxt else set()
                    direct = p.resolve(t.func, f.crate) if t.func else []
                    handed = set()
                    for i, a in enumerate(args):
                        if direct and any((g.key, i) in req for g in direct):
                            for x in {core(y) for y in a if not safe(y, rooted)}:
                                if record:
                                    viol.setdefault((b, x), set()).add('kept by ' + direct[0].key)
                            continue
                        ty = f.types.get(t.args[i].place.local, '') if t.args[i].place is not None else ''
                        if not CONTAINER.search(ty) and not ty.startswith('&mut') and 'closure' not in ty:
                            handed |= a
                    for l in lv:
                        for x in get(ids, l):
                            if not safe(x, rooted) and x not in handed and core(x) not in handed and record and (holds(f.types.get(l, ''))):
                                viol.setdefault((b, core(x)), set()).add(f.names.get(l) or 'temporary')
                if b in rootloops:
                    rooted |= {core(i) for i in allids if any((x, core(i)) in elemroots for x in rootloops[b])}
                direct = p.resolve(t.func, f.crate) if t.func else []
                given = set(allids) if name in ROOTNAMES else set().union(*(args[k] for k in set.intersection(*(rooted_params(g) for g in direct)) if k < len(args))) if direct else set()
                if given:
                    todo = given
                    while todo:
                        i = todo.pop()
                        rooted.add(i)
                        if i[0] == 'd':
                            elemroots.add((b, i[1]))
                        todo |= {x for x in contents.get(i, ()) if x not in rooted}
                if name not in ROOTNAMES and t.args and t.args[0].place is not None:
                    t0 = f.types.get(t.args[0].place.local, '')
                    if t0.startswith('&mut') and not re.search(r'\bVM$', t0):
                        bl = base(t.args[0].place.local)
                        rest = set().union(*args[1:]) if len(args) > 1 else set()
                        own = get(ids, bl)
                        if rest:
                            bt = f.types.get(bl, '')
                            if CONTAINER.search(bt) and not bt.startswith('&') :
                                ids |= {(bl, i) for i in rest}
                            elif all(safe(i, rooted) or core(i)[0] == 'p' for i in own) and HOLD.search(bt):
                                rooted |= rest
                            else:
                                ids |= {(bl, i) for i in rest}
                            if record and f.is_closure and CONTAINER.search(t0) and bl == f.args[0]:
                                stored.append((b, rest))
                dl = t.dest.local
                dty = f.types.get(dl, '')
                new = set()
                fresh = False
                if holds(dty) or '&' in dty:
                    direct = p.resolve(t.func, f.crate) if t.func else []
                    if direct:
                        fresh = name in UNROOT or any((g.key in makes or g.key in mr) for g in direct) and not NOTFRESH.search(t.func or '') and holds(dty) and not dty.startswith('&')
                    else:
                        fresh = any(g.key in makes and g.is_closure for g in gs) and bool(CONTAINER.search(dty)) or m and not any('closure' in f.types.get(a.place.local, '') for a in t.args if a.place is not None) and holds(dty)
                    fresh = fresh or bool(re.match(r'(std::boxed::Box<)?[\w:]*FiberContext>?$', dty))
                    if fresh:
                        i = ('c', b)
                        new = {i}
                        rooted.discard(i)
                        if not m:      # an object wrapped around these holds them
                            contents.setdefault(i, set()).update(allids - {i})
                        if direct and all(rooted_result(g) for g in direct):
                            rooted.add(i)
                    elif direct and not SAME.search(t.func or '') or not direct and name in ELEM:
                        new = {('d', core(i)) for i in allids}
                    else:
                        new = allids
                if not t.dest.proj:
                    ids -= {x for x in ids if x[0] == dl}
                if holds(dty) or '&' in dty:
                    ids |= {(dl, i) for i in new}
            if t.kind != 'return':
                lv = {0, *f.args}.union(*(live.get(x, ()) for x in t.succ if not f.blocks[x].cleanup))
                ids = {x for x in ids if x[0] in lv or base(x[0]) in lv}
            return (frozenset(ids), frozenset(rooted))
        def join(a, b):
            # rooted where every path that holds the identity roots it
            ia, ib = {i for _, i in a[0]}, {i for _, i in b[0]}
            r = {i for i in a[1] | b[1] if (i in a[1] or i not in ia) and (i in b[1] or i not in ib)}
            return (a[0] | b[0], frozenset(r))
        forward(f, init, transfer, join)
        IN = forward(f, init, transfer, join)
        ret, had, params = True, False, None
        if f.is_closure and any(may(f, t) for b, t in f.calls()):     # a closure run for each element: what it leaves in captured collections waits for the next turn
            for b in list(IN):
                if f.blocks[b].term.kind == 'return':
                    for bb, rest in captured(IN):
                        for x in rest:
                            if x[0] == 'c' and not safe(x, IN[b][1]) and not safe(x, IN[bb][1]):
                                viol.setdefault((x[1], x), set()).add('captured collection')
        for b in IN:
            if not f.blocks[b].cleanup:
                out = transfer(b, IN[b], True)
                if f.blocks[b].term.kind == 'return':
                    ret = ret and all(safe(i, out[1]) for i in get(out[0], 0))
                    rp = {i for l, i in isparam.items() if ('p', i) in out[1]}
                    params = rp if params is None else params & rp
                    had = had or any(i[0] == 'c' for i in get(out[0], 0))
        rparams[f.key] = params or set()
        kept[f.key] = ret and f.key not in mr and had
        return viol
    kept, rparams = {}, {}
    def rooted_params(g):
        """parameters g has given a root when it returns"""
        if g.key not in rparams:
            rparams[g.key] = set()
            if g.key not in mr and (g.file or '').startswith('ruruby/src/') and any('executor::VM' in g.types.get(a, '') for a in g.args) and any(holds(g.types.get(a, '')) for a in g.args) and any(t.func and drop_generics(t.func).rsplit('::', 1)[-1] in ROOTNAMES for b, t in g.calls()):
                analyse(g)
        return rparams[g.key]
    def rooted_result(g):
        """every object g returns has been given a root by g"""
        if g.key not in kept:
            kept[g.key] = False
            if g.key not in mr and any(t.func and drop_generics(t.func).rsplit('::', 1)[-1] in ROOTNAMES for b, t in g.calls()):
                analyse(g)
        return kept[g.key]
    while True:
        n = len(req)
        for f in work:
            results[f.key] = analyse(f)
            for (b, x), how in results[f.key].items():
                if x[0] == 'p':
                    req.setdefault((f.key, x[1]), f.loc(f.blocks[b].term.span))
        if len(req) == n:
            break
    for f in work:
        bad = {}
        for (b, x), how in results[f.key].items():
            if x[0] == 'c':
                bad.setdefault(x, []).append((b, how))
        for b, t in f.calls():
            if f.blocks[b].cleanup or not may(f, t):
                continue
            here = [(x, how) for x, l in bad.items() for bb, how in l if bb == b]
            if not here:
                ctx.ok('calls that may run Ruby code', (f.key, b))
        for x, l in bad.items():
            src = f.blocks[x[1]].term
            b, how = l[0]
            ctx.bad('calls that may run Ruby code', (f.key, drop_generics(src.func or 'callback').rsplit('::', 1)[-1], '/'.join(sorted(how))), '%s: the object made at %s (in %s) has no root while the call may run Ruby code' % (f.key, f.loc(src.span), '/'.join(sorted(how))), f.loc(f.blocks[b].term.span))
    ctx.floor('calls that may run Ruby code', 250)

ELEM = {'next', 'next_back', 'pop', 'remove', 'swap_remove', 'get', 'first', 'last', 'index', 'nth'}     # one element of a collection: a root for it is none for the collection
SKIP = re.compile(r'run_context_main')
SAME = re.compile(r'(into_array|as_array|expect_array|new_unchecked|as_hash|as_enumerator|::into|::from|::get|::clone|::deref(_mut)?|to_vec|elements|as_\w+|expect_\w+|::iter\w*|HashKey)(::<.*>)?$')
NOTFRESH = re.compile(r'get_class|Value::(nil|bool|true_val|false_val|fixnum|symbol)')
