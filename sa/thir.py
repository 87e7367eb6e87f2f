"""Names of scalar constants. rustc prints scalar named constants in MIR as `const _`; the THIR dump keeps their paths.
named_consts(path) -> {(fn tail, span): [const def path, ...]} for the span of the constant's consumer (and of the constant itself)."""
import re

TRANSP = ('Scope', 'Use', 'ValueTypeAscription', 'PlaceTypeAscription', 'NeverToAny')
SPAN = re.compile(r'\n            span: (\S+ \S+) \(#\d+\),')
REF = re.compile(r'\be(\d+)\b')
DEF = re.compile(r'def_id: DefId\(\d+:\d+ ~ (\w+)\[\w+\]::(.*)\),')
TY = re.compile(r'\n            ty: (\S+),')

def tail(path):
    segs = path.split('::')
    for i in range(len(segs) - 1, -1, -1):
        if segs[i].startswith('{impl#') or segs[i].startswith('<impl'):
            return '::'.join(segs[i + 1:])
    return '::'.join(segs)

def named_consts(path):
    out = {}
    with open(path, encoding='utf-8', errors='replace') as f:
        text = f.read()
    for body in re.split(r'(?m)^(?=DefId\()', text):
        m = re.match(r'DefId\(\d+:\d+ ~ \w+\[\w+\]::(.*)\):\n', body)
        if not m or 'kind: NamedConst' not in body:
            continue
        t = tail(m.group(1))
        chunks = body.split('\n        Expr {\n')[1:]
        kinds, parent = [], {}
        for i, c in enumerate(chunks):
            k = re.match(r'\s*kind: (\w+)', c).group(1)
            kinds.append(k)
            e = c.find('\n            ty: ')
            for r in REF.findall(c[:e] if e > 0 else c):
                parent.setdefault(int(r), i)
        for i, k in enumerate(kinds):
            if k != 'NamedConst':
                continue
            c = chunks[i]
            d = DEF.search(c)
            ty = TY.search(c)
            name = '%s::%s' % d.groups()
            own = SPAN.search(c).group(1)
            spans = [own]
            j = parent.get(i)
            while j is not None:
                s = SPAN.search(chunks[j]).group(1)
                if s not in spans:
                    spans.append(s)
                if kinds[j] not in TRANSP:
                    break
                j = parent.get(j)
            for s in spans:
                out.setdefault((t, s), []).append((name, ty.group(1) if ty else '?'))
    return out
