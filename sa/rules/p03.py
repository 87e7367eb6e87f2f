"""No pointer into the storage of an array, hash or string is held while Ruby code may run. Provenance analysis over MIR: every reference,
slice and iterator is traced to where its memory lives - a local container, the value stack, a constant, an object's own cell (which stays in
place as long as the object does), or storage an object owns and may free or move when it is changed. At each call that may run Ruby code no
value pointing into the last kind may be live, be handed to a library function that calls back, or be passed for a parameter that the callee
itself keeps across such a call."""
import re
import facts
from program import AnalysisError, drop_generics
from flow import live_in, reachable, defs, partial_defs
from rules.p13 import CALLFN

PAYLOAD = r'(ArrayInfo|HashInfo|RString|RegexpInfo|RValue|RangeInfo|ProcInfo|MethodObjInfo|TimeInfo|FiberContext|StructInfo)'
HANDLE = re.compile(r'^(?:&(?:mut )?)*(?:[\w:]*::)?(Value|Array|Module|RValue|Hash|%s)$' % PAYLOAD[1:-1])
STORE = re.compile(r"slice::|&(mut )?\[|&(mut )?(str|[\w:]*::Value|[\w:]*String)\b|str::|[Ii]ndex_?[Mm]ap|hash_map|hash_set|indexset|Drain|Cow<|\b\w+<'_|iter::|impl .*Iterator|vec::IntoIter<&|Vec<&|&(mut )?(std::vec::Vec|smallvec::SmallVec|SmallVec)")
SAFEARG = re.compile(r'^(?:&(?:mut )?)*(?:[\w:]*::)?(VM|VMRef|Globals|GlobalsRef|Args2|Args|Block|ISeqRef|ISeqInfo|IdentId|MethodRepo|Ref<.*>)$')

UNCHECKED = re.compile(r'>::(get_unchecked(_mut)?|add|offset|sub)(::<.*>)?$')

def borrowish(ty):
    if not ty or re.match(r'(std::boxed::Box<dyn |.*\bfn\()', ty):
        return False
    if re.match(r'\*(const|mut) (?!.*\bRValue)', ty):
        return True
    return ('&' in ty or "'_" in ty or 'impl ' in ty) and bool(STORE.search(ty)) or bool(HANDLE.match(ty))

class Prov:
    def __init__(self, p):
        self.p = p
        self.cache = {}

    def of(self, f, l):
        key = (f.key, l)
        c = self.cache.get(key)
        if c is None:
            self.cache[key] = frozenset()       # cycles: least fixpoint
            while True:
                self._busy_changed = False
                n = self._of(f, l)
                if n == self.cache[key]:
                    break
                self.cache[key] = n
            c = self.cache[key]
        return c

    def _of(self, f, l):
        ty = f.types.get(l, '')
        if HANDLE.match(ty) and not ty.startswith('&'):
            return frozenset({'cell'})
        out = set()
        if l in f.args:
            i = f.args.index(l)
            if HANDLE.match(ty):
                return frozenset({'cell'})
            if SAFEARG.match(ty):
                return frozenset({'safe'})
            out.add(('param', i))
        for d in defs(f).get(l, []):
            if d[0] == 'arg':
                continue
            out |= self.defn(f, l, ty, d[2])
        for b, i, s in partial_defs(f).get(l, []):
            if getattr(s, 'kind', '') == 'assign' and '*' not in s.place.proj:
                out |= self.defn(f, l, ty, s.rv)
        return frozenset(out)

    def place(self, f, pl, byref):
        """tags of the pointer value stored in / the address of a place"""
        star = '*' in pl.proj
        if byref and not star:
            base = f.types.get(pl.local, '')
            t = {'own'}
            if borrowish(base):
                t |= self.of(f, pl.local)
            return t
        t = set(self.of(f, pl.local))
        if star and 'cell' in t:
            k = pl.proj.index('*')
            rest = pl.proj[k + 1:]
            if '*' in rest or any(isinstance(x, tuple) and x[0] == 'i' for x in rest):
                ty = facts.place_type(self.p, f, pl) or ''
                if not HANDLE.match(str(ty)):
                    t = (t - {'cell'}) | ({'cell'} if any(x[2:] for x in ()) else {'store'} if any(isinstance(x, tuple) and x[0] == 'i' for x in rest) else {'cell'})
        return t

    def defn(self, f, l, ty, rv):
        if getattr(rv, 'kind', None) == 'call':
            return self.callresult(f, ty, rv)
        k = rv.kind
        out = set()
        if k in ('ref', 'addr', 'fake'):
            return self.place(f, rv.ops[0].place, True)
        for o in rv.ops:
            if o.place is None:
                out.add('safe')
            else:
                out |= self.place(f, o.place, False)
        return out

    def callresult(self, f, ty, t):
        if not borrowish(ty):
            return set()
        if HANDLE.match(ty):
            return {'cell'}
        out = set()
        gs = self.p.resolve(t.func, f.crate) if t.func else []
        for a in t.args:
            aty = f.types.get(a.place.local, '') if a.place is not None else ''
            if a.place is None or SAFEARG.match(aty):
                out.add('safe')
                continue
            if HANDLE.match(aty) and not aty.startswith('&'):
                x = {'cell'}
            elif borrowish(aty) or '&' in aty or 'iter::' in aty or "'_" in aty:
                x = set(self.of(f, a.place.local)) if not a.place.proj else self.place(f, a.place, False)
                if HANDLE.match(aty):
                    x = {'cell'}
            else:
                continue
            out |= x
        if 'cell' in out and (STORE.search(ty) or ty.startswith('*')):
            if gs and all(self.fieldof(g) for g in gs):
                pass
            else:
                out = (out - {'cell'}) | {'store'}
        return out

    def fieldof(self, g):
        """g returns the address of a field of the object's own cell"""
        ty = g.types.get(0, '')
        if not re.match(r'&', ty):
            return False
        key = ('fieldof', g.key)
        if key not in self.cache:
            self.cache[key] = False
            self.cache[key] = self.of(g, 0) <= {'cell', 'safe'} and bool(self.of(g, 0))
        return self.cache[key]

def run(ctx):
    p = ctx.p
    mr = facts.may_run(p)
    P = Prov(p)
    def may(f, t):
        cs = p.callees(f, t)
        return any(g.key in mr for g in cs) or (t.func and not cs and bool(CALLFN.search(t.func))) or not t.func
    req = {}          # (fn key, param index) -> where it is kept
    work = [f for f in p.fns if (f.file or '').startswith('ruruby/src/') and not (f.file or '').endswith('tests.rs')]
    sites = {}
    for f in work:
        live = live_in(f, discr=False)
        for b, t in f.calls():
            if f.blocks[b].cleanup or not may(f, t):
                continue
            nxt = [s for s in t.succ if not f.blocks[s].cleanup]
            lv = set(live.get(nxt[0], ())) - {t.dest.local} if nxt else set()
            held = [(l, 'kept') for l in lv if borrowish(f.types.get(l, ''))]
            direct = p.resolve(t.func, f.crate) if t.func else []
            if t.func and not direct:
                held += [(a.place.local, 'library') for a in t.args if a.place is not None and borrowish(f.types.get(a.place.local, ''))]
            sites[(f.key, b)] = (f, b, t, held, direct)
            for l, how in held:
                for x in P.of(f, l):
                    if isinstance(x, tuple) and x[0] == 'param' and (STORE.search(f.types.get(l, '')) or f.types[l].startswith('*')):
                        req.setdefault((f.key, x[1]), (f.key, t.span))
    # parameters kept by a callee the parameter is handed on to
    ch = True
    while ch:
        ch = False
        for f, b, t, held, direct in sites.values():
            for g in direct:
                for i, a in enumerate(t.args):
                    if a.place is not None and (g.key, i) in req:
                        for x in P.of(f, a.place.local):
                            if isinstance(x, tuple) and x[0] == 'param' and (f.key, x[1]) not in req:
                                req[(f.key, x[1])] = req[(g.key, i)]
                                ch = True
    n = 0
    for f, b, t, held, direct in sites.values():
        n += 1
        bad = set()
        for l, how in held:
            if 'store' in P.of(f, l):
                bad.add((f.names.get(l) or short(f.types.get(l, '')), how))
        for g in direct:
            for i, a in enumerate(t.args):
                if a.place is not None and (g.key, i) in req and 'store' in P.of(f, a.place.local):
                    bad.add((f.names.get(a.place.local) or short(f.types.get(a.place.local, '')), 'kept by ' + g.key))
        if bad:
            for nm, how in sorted(bad):
                ctx.bad('calls that may run Ruby code', (f.key, nm, how), '%s: %s points into storage of an object while the call may run Ruby code that changes it (%s)' % (f.key, nm, how), f.loc(t.span))
        else:
            ctx.ok('calls that may run Ruby code', (f.key, b))
    # unchecked indexing: the length must be read again after the last call that may run Ruby code
    for f in work:
        un = [(b, t) for b, t in f.calls() if not f.blocks[b].cleanup and t.func and UNCHECKED.search(t.func) and ('slice::' in t.func or 'ptr::' in t.func) and t.args and t.args[0].place is not None and P.of(f, t.args[0].place.local) & {'store', 'cell'}]
        if not un:
            continue
        lens = {b for b, t in f.calls() if t.func and re.search(r'::len$', t.func)}
        after = set()
        for b, t in f.calls():
            if not f.blocks[b].cleanup and may(f, t):
                after |= reachable(f, [x for x in t.succ if not f.blocks[x].cleanup], avoid=lens)
        for b, t in un:
            if b in after:
                ctx.bad('unchecked indexing', (f.key, 'unchecked'), '%s: storage of an object is indexed without a check after a call that may have shrunk it' % f.key, f.loc(t.span))
            else:
                ctx.ok('unchecked indexing', (f.key, b))
    ctx.floor('calls that may run Ruby code', 250)

def short(ty):
    return drop_generics(ty).strip('& ').rsplit('::', 1)[-1] or ty[:40]
