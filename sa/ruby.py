"""Facts about ruruby's runtime shared by the rules: natives, Ruby-callable names, may-run-Ruby closure."""
import re
from program import AnalysisError, simple
from flow import origin

def is_native_sig(f):
    return f.kind == 'fn' and len(f.args) == 3 and simple(f.types[1]) == 'VM' and simple(f.types[2]) == 'Value' and simple(f.types[3]) == 'Args2'

def natives(p):
    """functions whose address is taken as a builtin method body: key -> Fn"""
    c = getattr(p, '_natives', None)
    if c is not None:
        return c
    c = {}
    for f in p.fns:
        for b, i, s in f.stmts():
            if s.kind == 'assign' and s.rv.kind == 'cast' and ('ReifyFnPointer' in s.rv.a[0] or 'ClosureFnPointer' in s.rv.a[0]) \
                    and 'VM' in s.rv.a[1] and 'Args2' in s.rv.a[1]:
                o = s.rv.ops[0]
                r = p.resolve(o.path or o.text, f.crate) if o.kind == 'const' else []
                if not r and o.kind == 'const':
                    r = p.closure(o.text)
                if not r and o.place is not None:
                    r = p.closure(f.types.get(o.place.local, ''))
                if not r:
                    raise AnalysisError('cannot resolve builtin body %r in %s' % (o.text, f.key))
                for g in r:
                    c[g.key] = g
    p._natives = c
    return c

def registrations(p):
    """[(registering fn, Ruby name, native Fn, registering callee)]"""
    out = []
    for f in p.fns:
        for b, t in f.calls():
            if not t.func or 'add_builtin' not in t.func:
                continue
            name = nat = None
            for a in t.args:
                k, d, pr = origin(f, a)
                if k == 'const' and d.text and d.text.startswith('"'):
                    name = d.text.strip('"')
                elif k == 'const' and (d.path or d.text):
                    r = p.resolve(d.path or d.text, f.crate)
                    if len(r) == 1 and is_native_sig(r[0]):
                        nat = r[0]
            if name and nat:
                out.append((f, name, nat, t.func.split('::')[-1]))
    return out

def ruby_names(p):
    """native key -> 'module#name' list used for stable violation keys"""
    d = {}
    for f, n, g, how in registrations(p):
        mod = f.mod.split('::')[-1] if f.mod else f.key
        d.setdefault(g.key, []).append('%s%s%s' % (mod, '.' if 'class_method' in how or 'singleton' in how else '#', n))
    return d
