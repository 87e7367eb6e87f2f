"""Tracing is complete. For every type with a `mark` implementation, and for the global root, the components that can hold object references
(computed from the type definitions: fields, variants, collection elements, map keys and values, the payload belonging to each kind tag, the slots
of environment frames, process-wide tables) are obligations; a path-sensitive must-analysis over MIR follows which obligations each path
discharges by handing the component to the collector, and every return must be reached with none left. An absent optional, an exhausted
iteration, another variant or kind tag, an already marked object, or a slot proven to lie on the (fully scanned) stack discharges its own
component only."""
import os, re
import marking
from marking import Holders, Marker, tag_fields
from program import AnalysisError, simple, generic_args
from rules.p19 import consts_of

EXEMPT = {
    ('Globals', 'const_cache'): 'version guarded: an entry is only used while no constant table changed (P09), so its value is still held by a traced table',
    ('Globals', 'fiber_result'): 'transfer register: written immediately before a context switch and read immediately after it',
    ('Globals', 'classes'): 'copies of entries of the process-wide class tables (checked below)',
    ('MethodRepo', 'i_cache'): 'version guarded (P08): only compared by identity while the class version is unchanged',
    ('MethodRepo', 'm_cache'): 'version guarded (P08): only compared by identity while the class version is unchanged',
    ('VM', 'lfp'): 'points into a frame reached through cfp',
    ('VM', 'handle'): 'the running fiber is referenced from the stack of the side that resumed it',
    ('VM', 'globals'): 'the root itself',
    ('VM', 'iseq'): 'code objects belong to methods of the method table, which is a root component',
    ('RValue', 'flags'): 'free-list link, never present in a live object',
    ('HeapContext', 'frame'): 'storage that ep points into; traced through ep',
    ('Allocator', '*'): 'the heap itself',
}
STATIC_EXEMPT = {'ALLOC': 'the heap itself'}

def run(ctx):
    p = ctx.p
    kinds = consts_of(p, 'ObjKind', 'u8')
    tags, sites = tag_fields(p, kinds)
    if len(tags) < 15:
        raise AnalysisError('kind tag / payload pairing not recognised (%d tags)' % len(tags))
    H = Holders(p, set(EXEMPT))
    M = Marker(p, H, tags)
    if 'Globals' not in H.gc or len(H.gc) < 15:
        raise AnalysisError('mark implementations not found')
    # process-wide tables
    statics = {}
    for f in p.fns:
        if f.kind in ('const', 'static') and '__getit' not in f.header and f.ret:
            t = f.ret
            if (f.kind == 'static' or simple(t) == 'LocalKey') and H.holds(t):
                n = f.header.split('::')[-1]
                if n in STATIC_EXEMPT:
                    continue
                statics[n] = t
    if not statics:
        raise AnalysisError('process-wide class tables not found')
    M.statics = {t: n for n, t in statics.items()}
    if len(M.statics) != len(statics):
        raise AnalysisError('two process-wide tables of one type')
    for n, f in sorted(H.gc.items()):
        if n == 'Value':
            obl = {('self',)}
        else:
            its = H.items(n)
            if n == 'EnvFrame':
                obl = {('self', c) for c in marking.FRAME}
            elif not its:
                t = H.norm(n)
                obl = H.expand(('self',), H.norm(generic_args(t)[0]) if generic_args(t) else t, force=not generic_args(t))
            else:
                obl = H.expand(('self',), n, force=True)
        if n == 'Globals':
            for s, t in statics.items():
                inner = generic_args(t)[0] if simple(t) == 'LocalKey' else t
                obl |= H.expand(('static', s), inner)
        M.root_key = f.key
        left = M.residual(f, frozenset({(f.args[0], frozenset({('self',)}))}), obl)
        for o in sorted(obl):
            hit = [x for x in left if x[:len(o)] == o]
            name = '.'.join(o[1:]) if o[0] == 'self' else 'process-wide table ' + '.'.join(o[1:])
            if not hit:
                ctx.ok('component traced', '%s: %s' % (n, name or 'itself'))
        for x in sorted(left):
            name = '.'.join(x[1:]) if x[0] == 'self' else 'process-wide table ' + '.'.join(x[1:])
            ctx.bad('component traced', 'untraced %s.%s' % (n, name), '%s can return without handing %s to the collector'
                    % (f.key, name or 'the object itself'), f.loc())
    # the untraced copies of built-in classes really are copies
    n = 0
    for f in p.fns:
        for b, i, s in f.stmts():
            if s.kind == 'assign' and s.rv.kind == 'agg' and s.rv.a == 'struct' and simple(s.rv.text[0]) == 'Classes':
                n += 1
                for nm, o in zip(s.rv.text[1], s.rv.ops):
                    k = [d for d in marking.defs(f).get(o.local, [])]
                    src = [d[1].func if d[0] == 'call' else '' for d in k]
                    while len(k) == 1 and k[0][0] == 'assign' and k[0][1].rv.kind == 'use' and k[0][1].rv.ops[0].local is not None:
                        k = marking.defs(f).get(k[0][1].rv.ops[0].local, [])
                        src = [d[1].func if d[0] == 'call' else '' for d in k]
                    if len(src) == 1 and src[0] and ('BuiltinClass::' in src[0] or src[0].endswith('::default')):
                        ctx.ok('class copies come from the class tables', '%s.%s' % (f.key, nm))
                    elif f.trait not in ('Clone',):
                        ctx.bad('class copies come from the class tables', 'copy %s' % nm, 'Classes.%s is not a copy of a traced built-in class' % nm, f.loc(s.span))
    if not n:
        raise AnalysisError('class copies not found')
    for t, fs in sorted(tags.items()):
        ctx.seen('kind tag payloads', 1)
    ctx.floor('component traced', 40)
    for k, v in sorted(EXEMPT.items()):
        ctx.assume('%s.%s is not traced: %s' % (k[0], k[1], v))
    ctx.assume('element iterators (slices, maps, RubyStack::iter, HashInfo::iter) visit every element; the accessors of EnvFrame return the slots they are named after')
