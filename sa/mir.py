"""Parser for rustc's MIR text (nightly-2023-12-28, -Zmir-opt-level=0 -Zmir-include-spans,
fully qualified paths) and the program model the rules run on."""
import re, sys
from functools import lru_cache

# ------------------------------------------------------------------ text helpers
OPEN = {'(': ')', '[': ']', '{': '}'}

def split_top(s, sep=','):
    """split at top level separators; understands () [] {} <> (not ->) and string/char literals"""
    out, depth, cur, i, n = [], 0, 0, 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i += 1
            while i < n and s[i] != '"':
                if s[i] == '\\':
                    i += 1
                i += 1
        elif c == "'":
            # char literal or lifetime
            m = re.match(r"'(\\u\{[0-9a-fA-F]+\}|\\.|[^\\'])'", s[i:])
            if m:
                i += m.end() - 1
        elif c in '([{':
            depth += 1
        elif c in ')]}':
            depth -= 1
        elif c == '<':
            depth += 1
        elif c == '>' and s[i - 1] != '-' and s[i - 1] != '=':
            depth -= 1
        elif c == sep and depth == 0:
            out.append(s[cur:i].strip())
            cur = i + 1
        i += 1
    last = s[cur:].strip()
    if last:
        out.append(last)
    return out

def match_paren_back(s, end):
    """s[end] == ')': index of its '(' (string literal aware, by forward scan)"""
    stack, i = [], 0
    while i <= end:
        c = s[i]
        if c == '"':
            i += 1
            while s[i] != '"':
                if s[i] == '\\':
                    i += 1
                i += 1
        elif c == "'":
            m = re.match(r"'(\\u\{[0-9a-fA-F]+\}|\\.|[^\\'])'", s[i:i + 14])
            if m:
                i += m.end() - 1
        elif c == '(':
            stack.append(i)
        elif c == ')':
            j = stack.pop()
            if i == end:
                return j
        i += 1
    raise ValueError('unbalanced ' + s)

# ------------------------------------------------------------------ places / operands
class Place:
    __slots__ = ('local', 'proj')
    def __init__(self, local, proj=()):
        self.local, self.proj = local, tuple(proj)
    def __eq__(self, o):
        return isinstance(o, Place) and self.local == o.local and self.proj == o.proj
    def __hash__(self):
        return hash((self.local, self.proj))
    def __repr__(self):
        s = '_%d' % self.local
        for p in self.proj:
            if p == '*':
                s = '(*%s)' % s
            elif p[0] == 'f':
                s += '.%d' % p[1]
            elif p[0] == 'as':
                s = '(%s as %s)' % (s, p[1])
            elif p[0] == 'i':
                s += '[_%d]' % p[1]
            else:
                s += '[%s]' % p[1]
        return s
    @property
    def simple(self):
        return not self.proj
    def __getstate__(self):
        return (self.local, self.proj)
    def __setstate__(self, st):
        self.local, self.proj = st

def _type_end(s, i):
    """index of the ')' closing a '(place: type' started before i"""
    depth = 0
    while True:
        c = s[i]
        if c in '([{':
            depth += 1
        elif c in ')]}':
            if depth == 0:
                return i
            depth -= 1
        i += 1

def _parse_place(s, i):
    if s[i] == '_':
        m = re.compile(r'_(\d+)').match(s, i)
        pl, i = (int(m.group(1)), []), m.end()
    elif s[i] == '(':
        if s[i + 1] == '*':
            (l, pr), i = _parse_place(s, i + 2)
            assert s[i] == ')', s[i:]
            pl, i = (l, pr + ['*']), i + 1
        else:
            (l, pr), i = _parse_place(s, i + 1)
            if s.startswith(' as ', i):
                j = s.index(')', i)
                pl, i = (l, pr + [('as', s[i + 4:j])]), j + 1
            elif s[i] == '.':
                m = re.compile(r'\.(\d+): ').match(s, i)
                j = _type_end(s, m.end())
                pl, i = (l, pr + [('f', int(m.group(1)), s[m.end():j])]), j + 1
            elif s[i] == ')':
                pl, i = (l, pr), i + 1
            else:
                raise ValueError(s[i:])
    else:
        raise ValueError('place? ' + s[i:])
    while i < len(s) and s[i] == '[':
        j = s.index(']', i)
        t = s[i + 1:j]
        m = re.fullmatch(r'_(\d+)', t)
        pl = (pl[0], pl[1] + [('i', int(m.group(1))) if m else ('c', t)])
        i = j + 1
    return pl, i

def parse_place(s):
    (l, pr), i = _parse_place(s, 0)
    if i != len(s):
        raise ValueError('trailing in place: ' + s)
    return Place(l, pr)

class Op:
    """operand: kind copy/move/const"""
    __slots__ = ('kind', 'place', 'text', 'path')
    def __init__(self, kind, place=None, text=None, path=None):
        self.kind, self.place, self.text, self.path = kind, place, text, path
    def __repr__(self):
        return '%s %s' % (self.kind, self.place if self.place is not None else (self.path or self.text))
    def __getstate__(self):
        return (self.kind, self.place, self.text, self.path)
    def __setstate__(self, st):
        self.kind, self.place, self.text, self.path = st
    @property
    def local(self):
        return self.place.local if self.place is not None else None

def parse_operand(s, pend):
    s = s.strip()
    if s.startswith('move '):
        return Op('move', parse_place(s[5:]))
    if s.startswith('const '):
        t = s[6:]
        path = None
        if t == '_' and pend:
            path = pend.pop(0)
        return Op('const', None, t, path)
    if s.startswith('copy '):
        return Op('copy', parse_place(s[5:]))
    if s[0] in '_(':
        try:
            return Op('copy', parse_place(s))
        except ValueError:
            pass
    return Op('const', None, s, None)   # function item

class Rv:
    __slots__ = ('kind', 'a', 'ops', 'text')
    def __init__(self, kind, ops=(), a=None, text=None):
        self.kind, self.ops, self.a, self.text = kind, list(ops), a, text
    def __repr__(self):
        return '%s(%s%s)' % (self.kind, '' if self.a is None else '%r, ' % (self.a,), ', '.join(map(repr, self.ops)))
    def __getstate__(self):
        return (self.kind, self.a, self.ops, self.text)
    def __setstate__(self, st):
        self.kind, self.a, self.ops, self.text = st

BINOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitXor', 'BitAnd', 'BitOr', 'Shl', 'Shr', 'Eq', 'Lt', 'Le', 'Ne', 'Ge', 'Gt',
          'Offset', 'CheckedAdd', 'CheckedSub', 'CheckedMul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked', 'ShlUnchecked', 'ShrUnchecked', 'Cmp'}

def parse_rvalue(s, pend):
    if s.startswith('&'):
        if '/*tls*/' in s:
            return Rv('use', [Op('const', None, s)])
        if s.startswith('&raw '):
            m = re.match(r'&raw (mut|const) ', s)
            return Rv('addr', [Op('copy', parse_place(s[m.end():]))], m.group(1))
        if s.startswith('&mut '):
            return Rv('ref', [Op('copy', parse_place(s[5:]))], 'mut')
        if s.startswith('&fake '):
            return Rv('fake', [Op('copy', parse_place(re.sub(r'^&fake (shallow |deep )?', '', s)))], 'fake')
        return Rv('ref', [Op('copy', parse_place(s[1:]))], 'shared')
    m = re.match(r'([A-Za-z]+)\(', s)
    if m and m.group(1) in BINOPS and s.endswith(')'):
        a, b = split_top(s[m.end():-1])
        return Rv('bin', [parse_operand(a, pend), parse_operand(b, pend)], m.group(1))
    if m and m.group(1) in ('Not', 'Neg') and s.endswith(')'):
        return Rv('un', [parse_operand(s[m.end():-1], pend)], m.group(1))
    if s.startswith('discriminant('):
        return Rv('discr', [Op('copy', parse_place(s[13:-1]))])
    if s.startswith('Len('):
        return Rv('len', [Op('copy', parse_place(s[4:-1]))])
    if s.startswith('deref_copy '):
        return Rv('use', [Op('copy', parse_place(s[11:]))])
    if s.startswith('SizeOf(') or s.startswith('AlignOf(') or s.startswith('OffsetOf('):
        return Rv('nullary', [], None, s)
    if s.startswith('ShallowInitBox('):
        return Rv('use', [parse_operand(split_top(s[15:-1])[0], pend)])
    # cast:  OPERAND as TYPE (Kind)
    if s.endswith(')'):
        m = re.search(r' \((IntToInt|PtrToPtr|FloatToInt|IntToFloat|FloatToFloat|FnPtrToPtr|Transmute|PointerExposeAddress|PointerFromExposedAddress|PointerCoercion\(\w+(\(\w+\))?\))\)$', s)
        if m:
            body = s[:m.start()]
            d, k = 0, -1
            # operand ends at first top level ' as '
            i = 0
            while i < len(body):
                c = body[i]
                if c in '([{<':
                    d += 1
                elif c in ')]}' or (c == '>' and body[i - 1] not in '-='):
                    d -= 1
                elif d == 0 and body.startswith(' as ', i):
                    k = i
                    break
                i += 1
            if k >= 0:
                return Rv('cast', [parse_operand(body[:k], pend)], (m.group(1), body[k + 4:]))
    if s.startswith('move ') or s.startswith('const ') or s.startswith('copy '):
        return Rv('use', [parse_operand(s, pend)])
    if s[0] == '_' or (s[0] == '(' and s[1] in '_(*'):
        try:
            return Rv('use', [Op('copy', parse_place(s))])
        except (ValueError, IndexError):
            pass
    if s.startswith('['):
        body = s[1:-1]
        if split_top(body, ';')[1:]:
            a, n = split_top(body, ';')
            return Rv('repeat', [parse_operand(a, pend)], n)
        return Rv('agg', [parse_operand(x, pend) for x in split_top(body)], 'array')
    if s.startswith('(') and s.endswith(')'):
        return Rv('agg', [parse_operand(x, pend) for x in split_top(s[1:-1])], 'tuple')
    # closures / structs  Path { f: op, .. }
    if s.startswith('{closure@') or s.startswith('{coroutine'):
        m = re.match(r'\{closure@[^}]*\}', s)
        name = m.group(0)
        rest = s[m.end():].strip()
        ops = []
        if rest.startswith('{'):
            for f in split_top(rest[1:-1]):
                ops.append(parse_operand(f.split(': ', 1)[1], pend))
        return Rv('agg', ops, 'closure', name)
    if s.endswith('}'):
        i = s.index(' {')
        # skip '{' inside generics (closure types)
        d, j = 0, 0
        while j < len(s):
            c = s[j]
            if c in '<([':
                d += 1
            elif c in ')]' or (c == '>' and s[j - 1] not in '-='):
                d -= 1
            elif c == '{' and d == 0 and s[j - 1] == ' ':
                i = j - 1
                break
            j += 1
        ops, names = [], []
        for f in split_top(s[i + 2:-1]):
            k, v = f.split(': ', 1)
            names.append(k.strip())
            ops.append(parse_operand(v, pend))
        return Rv('agg', ops, 'struct', (s[:i], tuple(names)))
    if s.endswith(')'):
        j = match_paren_back(s, len(s) - 1)
        return Rv('agg', [parse_operand(x, pend) for x in split_top(s[j + 1:-1])], 'variant', s[:j])
    return Rv('agg', [], 'variant', s)

class Stmt:
    __slots__ = ('place', 'rv', 'span', 'kind')
    def __init__(self, kind, place, rv, span):
        self.kind, self.place, self.rv, self.span = kind, place, rv, span
    def __repr__(self):
        return '%s = %r' % (self.place, self.rv) if self.kind == 'assign' else '%s %s' % (self.kind, self.place)
    def __getstate__(self):
        return (self.kind, self.place, self.rv, self.span)
    def __setstate__(self, st):
        self.kind, self.place, self.rv, self.span = st

class Term:
    """kind: call, switch, goto, return, resume, unreachable, assert, drop, asm"""
    __slots__ = ('kind', 'succ', 'unwind', 'dest', 'func', 'fop', 'args', 'op', 'targets', 'text', 'span', 'target')
    def __init__(self, kind, span=None):
        self.kind, self.span = kind, span
        self.succ, self.unwind, self.dest, self.func, self.fop = [], None, None, None, None
        self.args, self.op, self.targets, self.text, self.target = [], None, [], None, None
    def __repr__(self):
        if self.kind == 'call':
            return '%s = %s(%s) -> %s' % (self.dest, self.func or self.fop, ', '.join(map(repr, self.args)), self.succ)
        if self.kind == 'switch':
            return 'switch %r %s' % (self.op, self.targets)
        return '%s -> %s' % (self.kind, self.succ)
    def __getstate__(self):
        return tuple(getattr(self, k) for k in self.__slots__)
    def __setstate__(self, st):
        for k, v in zip(self.__slots__, st):
            setattr(self, k, v)

class Block:
    __slots__ = ('id', 'cleanup', 'stmts', 'term')
    def __init__(self, id, cleanup):
        self.id, self.cleanup, self.stmts, self.term = id, cleanup, [], None
    def __getstate__(self):
        return (self.id, self.cleanup, self.stmts, self.term)
    def __setstate__(self, st):
        self.id, self.cleanup, self.stmts, self.term = st

class Fn:
    def __init__(self, crate, header, kind):
        self.crate, self.header, self.kind = crate, header, kind
        self.args, self.ret = [], None
        self.types, self.names, self.debug = {}, {}, []
        self.blocks = {}
        self.key = None        # canonical name, filled by Program
        self.self_type = self.trait = None
        self.name = None
        self.file = None
        self.line = None
    @property
    def nargs(self):
        return len(self.args)
    def __repr__(self):
        return '<Fn %s>' % self.key
    def loc(self, span=None):
        return span or '%s:%s' % (self.file, self.line)
    def var(self, name):
        """locals bound to a source variable name"""
        return [p for (n, p) in self.debug if n == name]
    # ---- CFG
    def succs(self, b, unwind=False):
        t = self.blocks[b].term
        r = list(t.succ)
        if unwind and t.unwind is not None:
            r.append(t.unwind)
        return r
    def normal_blocks(self):
        if getattr(self, '_nb', None) is None:
            seen, st = {0}, [0]
            while st:
                b = st.pop()
                for s in self.blocks[b].term.succ:
                    if s not in seen:
                        seen.add(s)
                        st.append(s)
            self._nb = sorted(seen)
        return self._nb
    def preds(self):
        if getattr(self, '_pr', None) is None:
            pr = {b: [] for b in self.blocks}
            for b in self.normal_blocks():
                for s in self.blocks[b].term.succ:
                    pr[s].append(b)
            self._pr = pr
        return self._pr
    def calls(self):
        for b in self.normal_blocks():
            t = self.blocks[b].term
            if t.kind == 'call':
                yield b, t
    def stmts(self):
        for b in self.normal_blocks():
            for i, s in enumerate(self.blocks[b].stmts):
                yield b, i, s
    def __getstate__(self):
        d = dict(self.__dict__)
        for k in ('_nb', '_pr', '_dom', '_pdom', '_defs'):
            d.pop(k, None)
        return d

SPAN_RE = re.compile(r' // (?:scope \d+ at |in scope \d+ at |return place in scope \d+ at )(.*)$')
FILE_RE = re.compile(r'([\w./-]+\.rs):(\d+):(\d+): (\d+):(\d+)')

def split_comment(line):
    i = line.rfind(' // scope ')
    if i < 0:
        i = line.rfind('// scope ')
        if i < 0:
            return line.rstrip(), None
    c = line[i:].split(' at ', 1)
    return line[:i].rstrip(), (c[1].strip() if len(c) == 2 else None)

def parse_target(t):
    """'[return: bb1, unwind: bb2]' / 'unwind continue' / 'bb3'"""
    ret = None
    m = re.search(r'(?:return|success): bb(\d+)', t)
    if m:
        ret = int(m.group(1))
    un = None
    m = re.search(r'unwind: bb(\d+)', t)
    if m:
        un = int(m.group(1))
    m = re.fullmatch(r'bb(\d+)', t.strip())
    if m:
        ret = int(m.group(1))
    return ret, un

def parse_term(txt, span, pend):
    if txt == 'return;':
        return Term('return', span)
    if txt == 'resume;' or txt.startswith('resume'):
        return Term('resume', span)
    if txt == 'unreachable;':
        return Term('unreachable', span)
    if txt.startswith('terminate') or txt.startswith('abort'):
        return Term('resume', span)
    m = re.match(r'goto -> bb(\d+);', txt)
    if m:
        t = Term('goto', span)
        t.succ = [int(m.group(1))]
        return t
    m = re.match(r'switchInt\((.*)\) -> \[(.*)\];$', txt)
    if m:
        t = Term('switch', span)
        t.op = parse_operand(m.group(1), pend)
        for x in m.group(2).split(', '):
            k, b = x.split(': bb')
            t.targets.append((None if k == 'otherwise' else int(k), int(b)))
        t.succ = [b for _, b in t.targets]
        return t
    if txt.startswith('drop('):
        i = txt.rindex(') -> ')
        t = Term('drop', span)
        t.op = Op('copy', parse_place(txt[5:i]))
        r, t.unwind = parse_target(txt[i + 5:-1])
        t.succ = [r] if r is not None else []
        return t
    if txt.startswith('assert('):
        i = txt.rindex(') -> ')
        t = Term('assert', span)
        a = split_top(txt[7:i])
        neg = a[0].startswith('!')
        t.op = parse_operand(a[0][1:] if neg else a[0], pend)
        t.text = ('!' if neg else '') + a[1]
        t.args = [parse_operand(x, pend) for x in a[2:]]
        r, t.unwind = parse_target(txt[i + 5:-1])
        t.succ = [r] if r is not None else []
        return t
    if txt.startswith('falseEdge') or txt.startswith('falseUnwind'):
        t = Term('goto', span)
        t.succ = [int(re.search(r'bb(\d+)', txt).group(1))]
        return t
    if txt.startswith('asm!('):
        t = Term('asm', span)
        t.text = txt
        m = re.search(r'\) -> \[return: bb(\d+)', txt)
        if m:
            t.succ = [int(m.group(1))]
        return t
    # call
    i = txt.rfind(') -> ')
    if i < 0:
        return None
    d = txt.index(' = ')
    t = Term('call', span)
    t.dest = parse_place(txt[:d])
    body = txt[d + 3:i + 1]
    r, t.unwind = parse_target(txt[i + 5:-1])
    t.succ = [r] if r is not None else []
    j = match_paren_back(body, len(body) - 1)
    f = body[:j]
    if f.startswith('move ') or f.startswith('copy ') or re.match(r'[_(]', f) and re.fullmatch(r'(copy |move )?[_(*].*', f):
        try:
            t.fop = parse_operand(f, pend)
            if t.fop.kind == 'const':
                t.func, t.fop = f, None
        except ValueError:
            t.func = f
    else:
        t.func = f
    t.args = [parse_operand(x, pend) for x in split_top(body[j + 1:-1])]
    return t

HDR_FN = re.compile(r'^fn (.*) \{$')
HDR_OTHER = re.compile(r'^(const|static|static mut|promoted\[\d+\] in|[\w:<> @./-]+::\{constant#\d+\}) (.*)= \{$')

def parse_file(path, crate):
    fns, asmhold = [], None
    cur = None
    blk = None
    with open(path, encoding='utf-8', errors='replace') as f:
        lines = f.read().split('\n')
    i, n = 0, len(lines)
    pend_lines = []
    def flush_stmt(txt, span, consts):
        nonlocal blk
        if txt.startswith('StorageDead(') or txt.startswith('StorageLive('):
            blk.stmts.append(Stmt('live' if txt[7] == 'L' else 'dead', Place(int(txt[13:txt.index(')')])), None, span))
            return
        t = None
        if txt.startswith(('return', 'resume', 'unreachable', 'goto', 'switchInt', 'drop(', 'assert(', 'asm!', 'false', 'terminate', 'abort')) or ') -> ' in txt:
            try:
                t = parse_term(txt, span, list(consts)) if not (txt.endswith(');') and ' = ' in txt and ') -> [' not in txt and ') -> unwind' not in txt and not txt.startswith(('drop', 'assert', 'asm', 'switchInt'))) else None
            except (ValueError, AssertionError) as e:
                raise ValueError('%s: cannot parse terminator: %s (%s)' % (cur.header, txt, e))
        if t is not None:
            blk.term = t
            return
        if ' = ' in txt:
            d = txt.index(' = ')
            try:
                pl = parse_place(txt[:d])
                rv = parse_rvalue(txt[d + 3:-1], list(consts))
            except (ValueError, AssertionError) as e:
                if txt.startswith('discriminant('):
                    return
                raise ValueError('%s: cannot parse statement: %s (%s)' % (cur.header, txt, e))
            blk.stmts.append(Stmt('assign', pl, rv, span))
            return
        # nop, assume, ConstEvalCounter, PlaceMention ...
        blk.stmts.append(Stmt('other', txt, None, span))
    while i < n:
        l = lines[i]
        if cur is None:
            if l.startswith('fn ') and l.endswith('{'):
                cur = _header_fn(l, crate)
            elif l.endswith('= {') and not l.startswith(' '):
                cur = _header_other(l, crate)
            i += 1
            continue
        if l == '}':
            fns.append(cur)
            cur = None
            i += 1
            continue
        if blk is None:
            s = l.strip()
            m = re.match(r'bb(\d+)( \(cleanup\))?: \{$', s)
            if m:
                blk = Block(int(m.group(1)), bool(m.group(2)))
                cur.blocks[blk.id] = blk
            elif s.startswith('debug '):
                body, _ = _cut(s)
                mm = re.match(r'debug (\S+) => (.*);$', body)
                if mm:
                    nm, tgt = mm.groups()
                    try:
                        p = parse_place(tgt)
                        cur.debug.append((nm, p))
                        if p.simple:
                            cur.names.setdefault(p.local, nm)
                    except (ValueError, IndexError):
                        cur.debug.append((nm, tgt))
            elif s.startswith('let '):
                body, sp = _cut(s)
                mm = re.match(r'let (?:mut )?_(\d+): (.*);$', body)
                cur.types[int(mm.group(1))] = mm.group(2)
                if cur.file is None and sp:
                    fm = FILE_RE.search(sp)
                    if fm:
                        cur.file, cur.line = fm.group(1), int(fm.group(2))
            i += 1
            continue
        s = l.strip()
        if s == '}' and l.startswith('    }'):
            blk = None
            i += 1
            continue
        if not s or s.startswith('//'):
            i += 1
            continue
        if s.startswith('asm!('):
            buf = [s]
            while not re.search(r'; // scope', lines[i]):
                i += 1
                buf.append(lines[i])
            s = '\n'.join(buf)
        # multi-line string constants do not occur (escaped)
        txt, span = split_comment(s)
        i += 1
        consts = []
        while i < n:
            c = lines[i].lstrip()
            if not c.startswith('//'):
                break
            if c.startswith('// + const_: '):
                k = c.find('Unevaluated(')
                if k >= 0:
                    e = c[k + 12:]
                    consts.append(_uneval(e))
            i += 1
        flush_stmt(txt, span, consts)
    return fns

def _uneval(e):
    parts = split_top(e[:e.rindex(' }')][:-1] if e.endswith(' }') else e)
    p = parts[0]
    if len(parts) > 2 and parts[2].startswith('Some('):
        p += '#' + parts[2][5:].rstrip(')')
    return p

def _cut(s):
    i = s.find(' // ')
    # string constants never appear in debug/let lines
    if i < 0:
        return s, None
    return s[:i].rstrip(), s[i + 4:]

def _header_fn(l, crate):
    h = l[3:-2]
    # path up to '(' at depth 0 w.r.t. <>
    d = 0
    for k, c in enumerate(h):
        if c == '<':
            d += 1
        elif c == '>' and h[k - 1] not in '-=':
            d -= 1
        elif c == '(' and d == 0:
            break
    path = h[:k]
    # matching paren
    d, j = 0, k
    while True:
        if h[j] == '(':
            d += 1
        elif h[j] == ')':
            d -= 1
            if d == 0:
                break
        j += 1
    f = Fn(crate, path, 'fn')
    for a in split_top(h[k + 1:j]):
        nm, ty = a.split(': ', 1)
        num = int(nm[1:])
        f.args.append(num)
        f.types[num] = ty
    f.ret = h[j + 1:].replace(' -> ', '', 1).strip()
    f.types[0] = f.ret
    return f

def _header_other(l, crate):
    h = l[:-4].rstrip()
    m = re.match(r'(const|static mut|static|promoted\[\d+\] in) (.*)$', h)
    if m:
        kind, rest = m.group(1), m.group(2)
    else:
        kind, rest = 'const', h
    # last ': ' at depth zero separates the type
    d, k = 0, None
    for j, c in enumerate(rest):
        if c in '<({[':
            d += 1
        elif c in ')}]' or (c == '>' and rest[j - 1] not in '-='):
            d -= 1
        elif c == ':' and d == 0 and rest[j + 1:j + 2] == ' ':
            k = j
    path, ty = rest[:k], rest[k + 2:]
    pm = re.match(r'(promoted\[\d+\]) in', kind)
    f = Fn(crate, path + ('#' + pm.group(1) if pm else ''), 'promoted' if pm else kind.split()[0])
    f.ret = ty
    f.types[0] = ty
    return f

if __name__ == '__main__':
    import time
    t = time.time()
    for p in sys.argv[1:]:
        fs = parse_file(p, 'x')
        print(p, len(fs), time.time() - t)
