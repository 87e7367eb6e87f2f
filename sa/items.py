"""struct / enum / union definitions of the workspace, from the source tokens (comments and literals stripped)."""
import os, re

def strip_comments(s):
    out, i, n = [], 0, len(s)
    while i < n:
        c = s[i]
        if s.startswith('//', i):
            j = s.find('\n', i)
            i = n if j < 0 else j
        elif s.startswith('/*', i):
            d, i = 1, i + 2
            while d and i < n:
                if s.startswith('/*', i):
                    d += 1
                    i += 2
                elif s.startswith('*/', i):
                    d -= 1
                    i += 2
                else:
                    if s[i] == '\n':
                        out.append('\n')
                    i += 1
        elif c == 'r' and re.match(r'r#*"', s[i:i + 12]) and not (i and (s[i - 1].isalnum() or s[i - 1] == '_')):
            m = re.match(r'r(#*)"', s[i:i + 12])
            e = s.find('"' + m.group(1), i + m.end())
            e = n if e < 0 else e + 1 + len(m.group(1))
            out.append('""' + '\n' * s.count('\n', i, e))
            i = e
        elif c == '"':
            j = i + 1
            while j < n and s[j] != '"':
                j += 2 if s[j] == '\\' else 1
            out.append('""' + '\n' * s.count('\n', i, j))
            i = j + 1
        elif c == "'":
            m = re.match(r"'(\\u\{[0-9a-fA-F]+\}|\\x..|\\.|[^\\'\n])'", s[i:i + 14])
            if m:
                out.append("' '")
                i += m.end()
            else:
                out.append(c)
                i += 1
        else:
            out.append(c)
            i += 1
    return ''.join(out)

class Item:
    def __init__(self, kind, name, file, line, fields=(), variants=()):
        self.kind, self.name, self.file, self.line = kind, name, file, line
        self.fields = list(fields)      # [(name, type)]
        self.variants = list(variants)  # [(name, [(fname, type)])]
    def __repr__(self):
        return '<%s %s>' % (self.kind, self.name)

def _close(s, i):
    pairs = {'(': ')', '{': '}', '[': ']', '<': '>'}
    o = s[i]
    c = pairs[o]
    d = 0
    while i < len(s):
        if s[i] == o:
            d += 1
        elif s[i] == c and not (c == '>' and s[i - 1] in '-='):
            d -= 1
            if d == 0:
                return i
        i += 1
    raise ValueError('unbalanced')

def _split(s):
    out, d, cur = [], 0, 0
    for i, c in enumerate(s):
        if c in '([{<':
            d += 1
        elif c in ')]}' or (c == '>' and s[i - 1] not in '-='):
            d -= 1
        elif c == ',' and d == 0:
            out.append(s[cur:i])
            cur = i + 1
    out.append(s[cur:])
    return [re.sub(r'\s+', ' ', x).strip() for x in out if x.strip()]

def _strip_attrs(x):
    x = x.strip()
    while x.startswith('#'):
        e = _close(x, x.index('['))
        x = x[e + 1:].strip()
    x = re.sub(r'^pub(\s*\([^)]*\))?\s+', '', x)
    return x

OFF = re.compile(r'#\[cfg\((feature\s*=|test\b|windows\b|debug_assertions\b)')
def _off(x):
    """configured out in the analysed build (no optional features)"""
    x = x.strip()
    while x.startswith('#'):
        e = _close(x, x.index('['))
        if OFF.match(re.sub(r'^#\s*\[\s*', '#[', x)):
            return True
        x = x[e + 1:].strip()
    return False

def _named(body):
    r = []
    for x in _split(body):
        if _off(x):
            continue
        x = _strip_attrs(x)
        k, t = x.split(':', 1)
        r.append((k.strip(), t.strip()))
    return r

def _tuple(body):
    return [(str(i), _strip_attrs(x)) for i, x in enumerate(x for x in _split(body) if not _off(x))]

def parse_source(s, file):
    s = strip_comments(s)
    out = []
    for m in re.finditer(r'\b(struct|enum|union)\s+(\w+)', s):
        kind, name = m.groups()
        line = s.count('\n', 0, m.start()) + 1
        i = m.end()
        while i < len(s) and s[i].isspace():
            i += 1
        if i < len(s) and s[i] == '<':
            i = _close(s, i) + 1
        j = i
        while j < len(s) and s[j] not in '{(;':
            j += 1
        if j >= len(s):
            continue
        try:
            if s[j] == ';':
                out.append(Item(kind, name, file, line))
            elif s[j] == '(':
                e = _close(s, j)
                out.append(Item(kind, name, file, line, _tuple(s[j + 1:e])))
            else:
                e = _close(s, j)
                body = s[j + 1:e]
                if kind == 'enum':
                    vs = []
                    for v in _split(body):
                        if _off(v):
                            continue
                        v = _strip_attrs(v)
                        mm = re.match(r'(\w+)\s*', v)
                        rest = v[mm.end():]
                        if rest.startswith('('):
                            vs.append((mm.group(1), _tuple(rest[1:_close(rest, 0)])))
                        elif rest.startswith('{'):
                            vs.append((mm.group(1), _named(rest[1:_close(rest, 0)])))
                        else:
                            vs.append((mm.group(1), []))
                    out.append(Item(kind, name, file, line, (), vs))
                else:
                    out.append(Item(kind, name, file, line, _named(body)))
        except (ValueError, AttributeError):
            continue      # inside a macro definition
    return out

def parse_tree(dirs):
    r = {}
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                if f.endswith('.rs'):
                    p = os.path.join(root, f)
                    with open(p, encoding='utf-8') as fh:
                        for it in parse_source(fh.read(), p):
                            r.setdefault(it.name, []).append(it)
    return r
