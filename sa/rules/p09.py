"""Constant caches never outlive the definitions they were computed from. Interprocedural typestate analysis over MIR, from every builtin
body, interpreter-loop handler and other entry point: each write to a constant table, to a superclass/include link reachable by lookups, or to
the list of definition scopes of a body is followed (or immediately preceded) by an increment of the constant version before any code that
could look a constant up runs and before control returns to the program. Separately: the version only grows, a cached value is used only
where its version was found equal to the current one, entries store the version at which they were computed, and the lookup whose result is
cached depends on nothing but those tables (in particular not on the current receiver)."""
import facts, versioning
from program import AnalysisError

DEPS = {('ClassExt', 'const_table'), ('ClassInfo', 'upper'), ('ClassFlags', '0'), ('ISeqInfo', 'class_defined')}

def run(ctx):
    p = ctx.p
    for s, f in DEPS | {('Globals', 'const_version')}:
        facts.field_index(p, s, f) if f != '0' else None
    fills = {f.key for f in p.fns if any(True for _ in facts.mutations(p, f, {('ConstCache', 'table'), ('ConstCacheEntry', 'val'), ('ConstCacheEntry', 'version')})) and f.trait is None}
    if not fills:
        raise AnalysisError('constant cache writers not found')
    versioning.run(ctx, DEPS, {('ClassInfo', 'upper'), ('ClassFlags', '0')}, ('Globals', 'const_version'), fills, 'Globals', 'constant lookup')
    n = versioning.guarded_payloads(ctx, 'ConstCacheEntry', 'val', ['version'], 'constant cache')
    if n < 1:
        raise AnalysisError('uses of cached constants not found')
    versioning.stored_versions(ctx, [('ConstCacheEntry', 'version')], ('Globals', 'const_version'))
    # what is cached depends only on the tables
    selfs = {f.key for f in p.find('VM', 'self_value')}
    loadfile = {f.key for f in p.find('VM', 'require')}
    calls = facts.call_graph(p)
    setters = facts.reach_callers(p, {f.key for f in p.find('ConstCache', 'set')})
    if not selfs or not loadfile or not setters:
        raise AnalysisError('receiver accessor, file loader or constant cache setter not found')
    n = 0
    for f in p.fns:
        if f.key in setters and f.self_type in ('Globals', 'ConstCache'):
            continue
        for b, t in f.calls():
            if not (t.func and any(g.key in setters and g.self_type in ('Globals', 'ConstCache') for g in p.resolve(t.func, f.crate))):
                continue
            src = set()
            for a in t.args[1:]:
                if a.place is not None and facts.simple(f.types.get(a.place.local, '')) == 'Value':
                    src |= facts.sources(p, f, a.place.local)
            n += 1
            bad = None
            for s in src:
                if s[0] != 'call':
                    bad = 'a value that is not the result of a lookup'
                    continue
                todo, seen = [s[1]], set()
                while todo:
                    k = todo.pop()
                    if k in seen or k in loadfile:
                        continue
                    seen.add(k)
                    if k in selfs:
                        bad = 'a value that depends on the current receiver'
                    todo += list(calls.get(k, ()))
            if bad:
                ctx.bad('cached lookups depend on the tables only', 'cached value in %s' % f.key, '%s caches %s' % (f.key, bad), f.loc(t.span))
            else:
                ctx.ok('cached lookups depend on the tables only', f.key)
    if not n:
        raise AnalysisError('no use of the constant cache found')
    ctx.floor('constant lookup mutation sites', 12)
