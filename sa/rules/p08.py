"""Method caches never outlive the definitions they were computed from. Interprocedural typestate analysis over MIR, from every builtin
body, interpreter-loop handler and other entry point: each write to a method table, to a superclass/include link or to an include/prepend
flag of a class that lookups can already reach is followed (or immediately preceded) by an increment of the method version before any code
that could look a method up runs and before control returns to the program. Separately: the version only grows, every use of a cached
result is on a path where the entry's version (and class) was found equal to the current one, and results are stored under the version
they were computed at."""
import facts, versioning
from program import AnalysisError

DEPS = {('ClassExt', 'method_table'), ('ClassInfo', 'upper'), ('ClassFlags', '0')}

def run(ctx):
    p = ctx.p
    for s, f in DEPS | {('MethodRepo', 'class_version')}:
        facts.field_index(p, s, f) if f != '0' else None
    fills = {f.key for f in p.fns if any(True for _ in facts.mutations(p, f, {('MethodCache', 'cache'), ('InlineCache', 'table')}))
             and f.trait is None}
    if not fills:
        raise AnalysisError('method cache writers not found')
    versioning.run(ctx, DEPS, {('ClassInfo', 'upper'), ('ClassFlags', '0')}, ('MethodRepo', 'class_version'), fills, 'MethodRepo', 'method lookup')
    n = versioning.guarded_payloads(ctx, 'MethodCacheEntry', 'fid', ['version'], 'global method cache')
    n += versioning.guarded_payloads(ctx, 'InlineCacheEntry', 'fid', ['version', 'class'], 'inline method cache')
    if n < 2:
        raise AnalysisError('uses of cached methods not found')
    versioning.stored_versions(ctx, [('MethodCacheEntry', 'version'), ('InlineCacheEntry', 'version')], ('MethodRepo', 'class_version'))
    ctx.floor('method lookup mutation sites', 9)
