"""Parser for rustc's textual MIR (nightly-2023-04-01, -Zunpretty=mir).

Produces Body objects: typed locals, basic blocks, parsed places / operands /
rvalues / terminators.  Nothing here knows about goko.
"""
import re

OPEN = {'(': ')', '[': ']', '{': '}', '<': '>'}


class ParseError(Exception):
    pass


def split_top(s, sep=','):
    """Split on top-level separators; understands (), [], {}, <>, strings, ->."""
    out, depth, cur, i, n = [], 0, [], 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            j = i + 1
            while j < n and s[j] != '"':
                j += 2 if s[j] == '\\' else 1
            cur.append(s[i:j + 1])
            i = j + 1
            continue
        if c == "'" and i + 2 < n and (s[i + 2] == "'" or (s[i + 1] == '\\')):
            j = s.find("'", i + 2)
            if j > 0 and j - i <= 12:
                cur.append(s[i:j + 1])
                i = j + 1
                continue
        if c == '-' and i + 1 < n and s[i + 1] == '>':
            cur.append('->')
            i += 2
            continue
        if c == '=' and i + 1 < n and s[i + 1] == '>':
            cur.append('=>')
            i += 2
            continue
        if c in '([{<':
            depth += 1
        elif c in ')]}>':
            depth -= 1
        if c == sep and depth == 0:
            out.append(''.join(cur).strip())
            cur = []
        else:
            cur.append(c)
        i += 1
    last = ''.join(cur).strip()
    if last:
        out.append(last)
    return out


def match_close(s, i):
    """index of the bracket closing s[i]."""
    depth = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i += 1
            while i < n and s[i] != '"':
                i += 2 if s[i] == '\\' else 1
        elif c == "'" and i + 2 < n and (s[i + 2] == "'" or s[i + 1] == '\\'):
            j = s.find("'", i + 2)
            if 0 < j - i <= 12:
                i = j
        elif c == '-' and s[i + 1:i + 2] == '>':
            i += 1
        elif c == '=' and s[i + 1:i + 2] == '>':
            i += 1
        elif c in '([{<':
            depth += 1
        elif c in ')]}>':
            depth -= 1
            if depth == 0:
                return i
        i += 1
    raise ParseError('unbalanced: ' + s[:120])


# ---- places -------------------------------------------------------------
# place = (local:int, [proj...]); proj: ('deref',) ('field', idx, type)
#         ('down', variant) ('index', operand-local) ('cindex', text) ('sub', text)

def parse_place(s):
    s = s.strip()
    p, i = _place(s, 0)
    if i != len(s):
        raise ParseError('place trailing: %r' % s)
    return p


def _place(s, i):
    if s[i] == '_':
        m = re.match(r'_(\d+)', s[i:])
        if not m:
            raise ParseError('place: ' + s)
        loc = int(m.group(1))
        i += m.end()
        p = (loc, [])
    elif s[i] == '(':
        if s[i + 1] == '*':
            base, j = _place(s, i + 2)
            if s[j] != ')':
                raise ParseError('deref: ' + s)
            p = (base[0], base[1] + [('deref',)])
            i = j + 1
        else:
            base, j = _place(s, i + 1)
            if s.startswith(' as ', j):
                k = match_close(s, i)
                p = (base[0], base[1] + [('down', s[j + 4:k].strip())])
                i = k + 1
            elif s[j] == '.':
                m = re.match(r'\.(\d+): ', s[j:])
                if not m:
                    raise ParseError('field: ' + s)
                k = match_close(s, i)
                p = (base[0], base[1] + [('field', int(m.group(1)), s[j + m.end():k].strip())])
                i = k + 1
            else:
                raise ParseError('place: ' + s)
    else:
        raise ParseError('place: ' + s)
    while i < len(s) and s[i] == '[':
        k = match_close(s, i)
        inner = s[i + 1:k]
        m = re.fullmatch(r'_(\d+)', inner)
        if m:
            p = (p[0], p[1] + [('index', int(m.group(1)))])
        elif ' of ' in inner:
            p = (p[0], p[1] + [('cindex', inner)])
        else:
            p = (p[0], p[1] + [('sub', inner)])
        i = k + 1
    return p, i


# ---- operands -----------------------------------------------------------

def parse_operand(s):
    s = s.strip()
    if s.startswith('move '):
        return ('place', parse_place(s[5:]))
    if s.startswith('const '):
        return ('const', s[6:].strip())
    if s.startswith('_') or s.startswith('('):
        return ('place', parse_place(s))
    if re.match(r'[<A-Za-z]', s) and '::' in s:
        return ('fn', s)
    raise ParseError('operand: ' + s)


BINOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitXor', 'BitAnd', 'BitOr', 'Shl', 'Shr', 'Eq', 'Lt', 'Le',
          'Ne', 'Ge', 'Gt', 'Offset', 'CheckedAdd', 'CheckedSub', 'CheckedMul', 'CheckedShl', 'CheckedShr'}
UNOPS = {'Not', 'Neg'}


def parse_rvalue(s):
    s = s.strip()
    if s.startswith('&'):
        t = s[1:]
        kind = 'ref'
        for pre, k in (('raw const ', 'rawref'), ('raw mut ', 'rawmut'), ('mut ', 'mutref'), ('shallow ', 'ref'),
                       ('fake ', 'ref'), ('uniq ', 'mutref')):
            if t.startswith(pre):
                t = t[len(pre):]
                kind = k
                break
        t = t.strip()
        m = re.match(r"'\S+ ", t)
        if m:
            t = t[m.end():]
        return (kind, parse_place(t))
    if s.startswith('deref_copy '):
        return ('use', ('place', parse_place(s[11:])))
    m = re.match(r'([A-Z][A-Za-z]+)\(', s)
    if m and match_close(s, m.end() - 1) == len(s) - 1:
        op = m.group(1)
        inner = s[m.end():-1]
        if op in BINOPS:
            a, b = split_top(inner)
            return ('bin', op, parse_operand(a), parse_operand(b))
        if op in UNOPS:
            return ('un', op, parse_operand(inner))
        if op == 'Len':
            return ('len', parse_place(inner))
        if op in ('SizeOf', 'AlignOf'):
            return ('nullary', op, inner)
        if op == 'ShallowInitBox':
            return ('use', parse_operand(split_top(inner)[0]))
    if s.startswith('discriminant('):
        return ('discr', parse_place(s[len('discriminant('):-1]))
    if s.startswith('&') is False and (s.startswith('move ') or s.startswith('const ') or s.startswith('_') or s.startswith('(')):
        # cast or use or tuple
        m = re.search(r' as (.*) \((IntToInt|IntToFloat|FloatToInt|FloatToFloat|PtrToPtr|Transmute|PointerExposeAddress|PointerFromExposedAddress|FnPtrToPtr|DynStar|Pointer\(.*\))\)$', s)
        if m:
            return ('cast', parse_operand(s[:m.start()]), m.group(1), m.group(2))
        if s.startswith('('):
            try:
                return ('use', parse_operand(s))
            except ParseError:
                pass
            if match_close(s, 0) == len(s) - 1:
                return ('agg', 'tuple', [(str(i), parse_operand(a)) for i, a in enumerate(split_top(s[1:-1]))])
        return ('use', parse_operand(s))
    if s.startswith('['):
        k = match_close(s, 0)
        head = s[1:k]
        if head.startswith('closure@') or head.startswith('generator@') or head.startswith('async'):
            rest = s[k + 1:].strip()
            fields = []
            if rest.startswith('{'):
                for part in split_top(rest[1:-1]):
                    nm, _, v = part.partition(':')
                    fields.append((nm.strip(), parse_operand(v)))
            return ('closure', head, fields)
        if ';' in head:
            parts = split_top(head, ';')
            if len(parts) == 2:
                return ('agg', 'repeat', [('0', parse_operand(parts[0])), ('n', ('const', parts[1]))])
        return ('agg', 'array', [(str(i), parse_operand(a)) for i, a in enumerate(split_top(head))])
    # aggregate: Path { .. } | Path(..) | Path
    if s.endswith('}'):
        j = _find_agg_open(s, '{')
        fields = []
        for part in split_top(s[j + 1:-1]):
            nm, _, v = part.partition(':')
            fields.append((nm.strip(), parse_operand(v)))
        return ('agg', s[:j].strip(), fields)
    if s.endswith(')'):
        j = _find_agg_open(s, '(')
        return ('agg', s[:j].strip(), [(str(i), parse_operand(a)) for i, a in enumerate(split_top(s[j + 1:-1]))])
    return ('agg', s, [])


def _find_agg_open(s, ch):
    depth = 0
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '-' and s[i + 1:i + 2] == '>':
            i += 2
            continue
        if depth == 0 and c == ch and match_close(s, i) == n - 1:
            return i
        if c in '([{<':
            depth += 1
        elif c in ')]}>':
            depth -= 1
        i += 1
    raise ParseError('agg: ' + s)


class Stmt:
    __slots__ = ('kind', 'place', 'rv', 'span', 'text')

    def __init__(self, kind, place, rv, span, text):
        self.kind, self.place, self.rv, self.span, self.text = kind, place, rv, span, text


class Term_:
    """terminator"""
    __slots__ = ('kind', 'dest', 'func', 'args', 'op', 'targets', 'unwind', 'span', 'text', 'expected')

    def __init__(self, kind, text='', span=None):
        self.kind, self.text, self.span = kind, text, span
        self.dest = self.func = self.op = self.unwind = self.expected = None
        self.args = []
        self.targets = []


class Block:
    __slots__ = ('id', 'stmts', 'term', 'cleanup')

    def __init__(self, id_, cleanup):
        self.id, self.cleanup = id_, cleanup
        self.stmts = []
        self.term = None


class Body:
    def __init__(self, name, params, ret, crate, kind='fn'):
        self.name, self.params, self.ret, self.crate, self.kind = name, params, ret, crate, kind
        self.locals = {}
        for n, t in params:
            self.locals[n] = t
        self.locals[0] = ret
        self.debug = {}       # local -> name
        self.debug_upvar = {}  # field idx -> name
        self.blocks = {}
        self.first_span = None
        self.in_crate_path = None
        self.owner = None     # (self type base, trait base or None)
        self.method = None
        self.is_closure = False
        self.closure_span = None

    def __repr__(self):
        return 'Body(%s)' % self.name


SPAN = re.compile(r'\s+// (?:scope \d+|(?:return place )?in scope \d+) at ([^ ]+?):(\d+):(\d+): (\d+):(\d+)\s*$')
SPAN_ANY = re.compile(r'\s+// (?:scope \d+|(?:return place )?in scope \d+|.*in scope).*$')


def strip_comment(line):
    m = SPAN.search(line)
    if m:
        return line[:m.start()].rstrip(), (m.group(1), int(m.group(2)))
    m = re.search(r'\s+// (scope \d+ at|in scope \d+ at|return place in scope).*$', line)
    if m:
        return line[:m.start()].rstrip(), None
    return line.rstrip(), None


HEAD_FN = re.compile(r'^(?:fn|static mut|static|const) ')


def parse_terminator(text, span):
    t = text.rstrip(';')
    if t == 'return' or t == 'generator_drop':
        return Term_('return', text, span)
    if t == 'resume' or t.startswith('terminate') or t == 'abort':
        return Term_('resume', text, span)
    if t == 'unreachable':
        return Term_('unreachable', text, span)
    if t.startswith('goto -> '):
        r = Term_('goto', text, span)
        r.targets = [int(t[len('goto -> bb'):])]
        return r
    if t.startswith('falseEdge') or t.startswith('falseUnwind'):
        r = Term_('goto', text, span)
        r.targets = [int(re.search(r'real: bb(\d+)', t).group(1))]
        return r
    if t.startswith('switchInt('):
        k = match_close(t, len('switchInt'))
        r = Term_('switch', text, span)
        r.op = parse_operand(t[len('switchInt('):k])
        tl = t[k + 1:].strip()
        assert tl.startswith('-> [')
        for part in split_top(tl[4:-1]):
            v, _, b = part.partition(':')
            r.targets.append((v.strip(), int(b.strip()[2:])))
        return r
    if t.startswith('drop('):
        k = match_close(t, 4)
        r = Term_('drop', text, span)
        r.dest = parse_place(t[5:k])
        r.targets, r.unwind = _targets(t[k + 1:])
        return r
    if t.startswith('assert('):
        k = match_close(t, 6)
        r = Term_('assert', text, span)
        parts = split_top(t[7:k])
        c = parts[0]
        r.expected = True
        if c.startswith('!'):
            r.expected = False
            c = c[1:]
        r.op = parse_operand(c)
        r.func = parts[1] if len(parts) > 1 else ''
        r.args = []
        for a in parts[2:]:
            try:
                r.args.append(parse_operand(a))
            except ParseError:
                pass
        r.targets, r.unwind = _targets(t[k + 1:])
        return r
    m = re.match(r'(.*?) = yield\((.*)\) -> \[(.*)\]$', t)
    if m:
        r = Term_('yield', text, span)
        r.dest = parse_place(m.group(1))
        mm = re.search(r'resume: bb(\d+)', m.group(3))
        r.targets = [int(mm.group(1))]
        return r
    # call:  PLACE = callee(args) -> ...
    return parse_call(t, span, text)


def _targets(s):
    s = s.strip()
    if not s:
        return [], None
    assert s.startswith('->'), s
    s = s[2:].strip()
    if s.startswith('['):
        tg, uw = [], None
        for part in split_top(s[1:-1]):
            k, _, v = part.partition(':')
            k = k.strip()
            v = v.strip()
            if k in ('return', 'success', 'resume'):
                tg.append(int(v[2:]))
            elif k == 'unwind' and v.startswith('bb'):
                uw = int(v[2:])
            elif part.startswith('unwind bb'):
                uw = int(part[len('unwind bb'):])
        return tg, uw
    if s.startswith('bb'):
        return [int(s[2:])], None
    if s.startswith('unwind bb'):
        return [], int(s[len('unwind bb'):])
    if s.startswith('unwind'):
        return [], None
    raise ParseError('targets: ' + s)


def parse_call(t, span, text):
    # find ' = '
    i = _assign_eq(t)
    r = Term_('call', text, span)
    if i is None:
        raise ParseError('call: ' + t)
    r.dest = parse_place(t[:i])
    rest = t[i + 3:]
    # find last top-level '->'
    depth = 0
    j = None
    k = 0
    n = len(rest)
    while k < n:
        c = rest[k]
        if c == '"':
            k += 1
            while k < n and rest[k] != '"':
                k += 2 if rest[k] == '\\' else 1
        elif c == "'" and k + 2 < n and (rest[k + 2] == "'" or rest[k + 1] == '\\'):
            q = rest.find("'", k + 2)
            if 0 < q - k <= 12:
                k = q
        elif c == '-' and rest[k + 1:k + 2] == '>':
            if depth == 0:
                j = k
            k += 1
        elif c == '=' and rest[k + 1:k + 2] == '>':
            k += 1
        elif c in '([{<':
            depth += 1
        elif c in ')]}>':
            depth -= 1
        k += 1
    if j is not None:
        r.targets, r.unwind = _targets(rest[j:])
        rest = rest[:j].rstrip()
    # callee(args)
    if not rest.endswith(')'):
        raise ParseError('call tail: ' + rest[-80:])
    p = _find_agg_open(rest, '(')
    func = rest[:p].strip()
    if func.startswith('move '):
        r.func = ('op', parse_operand(func))
    elif re.match(r'_\d+$', func):
        r.func = ('op', parse_operand(func))
    else:
        r.func = ('path', func)
    r.args = [parse_operand(a) for a in split_top(rest[p + 1:-1])]
    return r


def _assign_eq(t):
    depth = 0
    i = 0
    n = len(t)
    while i < n - 2:
        c = t[i]
        if c == '-' and t[i + 1] == '>':
            i += 2
            continue
        if c in '([{<':
            depth += 1
        elif c in ')]}>':
            depth -= 1
        elif depth == 0 and t.startswith(' = ', i):
            return i
        i += 1
    return None


_SRC = {}


def _src_span(root, line):
    """source text of the span printed at the end of a MIR line"""
    m = SPAN.search(line)
    if not m or root is None:
        return None
    f, l1, c1, l2, c2 = m.group(1), *(int(m.group(k)) for k in (2, 3, 4, 5))
    ls = _SRC.get(f)
    if ls is None:
        try:
            with open(root + '/' + f, encoding='utf-8') as fh:
                ls = fh.read().split('\n')
        except OSError:
            ls = []
        _SRC[f] = ls
    if l2 > len(ls):
        return None
    if l1 == l2:
        return ls[l1 - 1][c1 - 1:c2 - 1]
    return '\n'.join([ls[l1 - 1][c1 - 1:]] + ls[l1:l2 - 1] + [ls[l2 - 1][:c2 - 1]])


CONSTPATH = re.compile(r'(?<![\w:])((?:::)?(?:\w+::)*[A-Z][A-Z0-9_]+)(?![\w:(!])')


def resolve_consts(text, rawline, following, root):
    """replace `const _` by the promoted / named constant it stands for."""
    n = len(re.findall(r'const _(?![\w])', text))
    if not n:
        return text
    vals = []
    for c in following:
        m = re.search(r'val: Unevaluated\((.*), \[.*\], Some\((promoted\[\d+\])\)\)', c)
        if m:
            vals.append('PROM::' + m.group(2))
    if len(vals) != n:
        vals = []
        st = _src_span(root, rawline)
        if st:
            st = re.sub(r'"(\\.|[^"\\])*"', '""', st)
            vals = [re.sub(r'^(::)?((std|core)::)+', '', v) for v in CONSTPATH.findall(st)]
            vals = [v for v in vals]
    if len(vals) == n:
        it = iter(vals)
        return re.sub(r'const _(?![\w])', lambda m: 'const ' + next(it), text)
    if vals and len(set(vals)) == 1:
        return re.sub(r'const _(?![\w])', 'const ' + vals[0], text)
    return text


def parse_file(path, crate, errors, root=None):
    """-> (list of fn bodies, dict promoted name -> Body, dict const)"""
    bodies = []
    cur = None
    blk = None
    with open(path, encoding='utf-8') as f:
        lines = f.read().split('\n')
    i = 0
    n = len(lines)
    while i < n:
        line = lines[i]
        i += 1
        if not line:
            continue
        if line[0] not in ' }/|':
            # header
            if line.startswith('fn ') and i < n and lines[i].startswith('yields '):
                # an async body before its state machine is made: the header goes on for two lines
                line += ' {'
                i += 1
                if i < n and lines[i].strip() == '{':
                    i += 1
            if not line.rstrip().endswith('{'):
                continue
            cur = parse_header(line, crate)
            blk = None
            if cur is not None:
                bodies.append(cur)
            continue
        if line.startswith('}'):
            cur = None
            continue
        if cur is None:
            continue
        s = line.strip()
        if s.startswith('//') or s.startswith('|') or not s:
            continue
        text, span = strip_comment(s)
        text = text.strip()
        if 'const _' in text:
            j = i
            fol = []
            while j < n and lines[j].lstrip().startswith('//'):
                fol.append(lines[j])
                j += 1
            text = resolve_consts(text, s, fol, root)
        if cur.first_span is None and span:
            cur.first_span = span
        m = re.match(r'bb(\d+)( \(cleanup\))?: \{$', text)
        if m:
            blk = Block(int(m.group(1)), bool(m.group(2)))
            cur.blocks[blk.id] = blk
            continue
        if text == '}':
            blk = None
            continue
        if blk is None:
            m = re.match(r'let (?:mut )?_(\d+): (.*);$', text)
            if m:
                cur.locals[int(m.group(1))] = m.group(2)
                continue
            m = re.match(r'debug (\S+) => (.*);$', text)
            if m:
                nm, pl = m.group(1), m.group(2)
                mm = re.fullmatch(r'_(\d+)', pl)
                if mm:
                    cur.debug.setdefault(int(mm.group(1)), nm)
                else:
                    mm = re.search(r'\(?\*?_1\)?\.(\d+): ', pl)
                    if mm:
                        cur.debug_upvar.setdefault(int(mm.group(1)), nm)
                continue
            continue
        # statement or terminator
        try:
            if re.match(r'(StorageLive|StorageDead|nop|Retag|FakeRead|AscribeUserType|ConstEvalCounter|PlaceMention|Coverage|Deinit)\b', text):
                continue
            if text.startswith('discriminant(') and ') = ' in text:
                pl, _, v = text.rstrip(';').partition(') = ')
                blk.stmts.append(Stmt('setdiscr', parse_place(pl[len('discriminant('):]), v, span, text))
                continue
            if text.startswith('assume(') or text.startswith('copy_nonoverlapping('):
                continue
            is_term = (re.match(r'(return|resume|unreachable|goto|switchInt|drop|assert|falseEdge|falseUnwind|generator_drop|terminate|abort)\b', text)
                       or _is_call(text))
            if is_term:
                blk.term = parse_terminator(text, span)
            else:
                e = _assign_eq(text)
                if e is None:
                    raise ParseError('stmt')
                pl = parse_place(text[:e])
                rv = parse_rvalue(text[e + 3:].rstrip(';'))
                blk.stmts.append(Stmt('assign', pl, rv, span, text))
        except (ParseError, AssertionError, ValueError, IndexError, TypeError) as ex:
            errors.append('%s: %s: %s: %s' % (crate, cur.name, text[:160], ex))
    return bodies


def _is_call(text):
    t = text.rstrip(';')
    # ends in "-> bbN" or "-> [..]" or "-> unwind .."
    if re.search(r' -> (bb\d+|\[[^\[\]]*\]|unwind [a-z0-9 ]+)$', t):
        return True
    # diverging calls without unwind: ends with ')' after an '=' with callee path
    m = re.match(r'_\d+ = ([A-Za-z_<][^ ]*.*)\((.*)\)$', t)
    if m:
        e = _assign_eq(t)
        rhs = t[e + 3:]
        if re.match(r'(move |const |deref_copy |&|_\d|\()', rhs):
            return False
        mm = re.match(r'([A-Z][A-Za-z]+)\(', rhs)
        if mm and (mm.group(1) in BINOPS or mm.group(1) in UNOPS or mm.group(1) in ('Len', 'SizeOf', 'AlignOf', 'ShallowInitBox')):
            return False
        if rhs.startswith('discriminant('):
            return False
        # aggregate tuple-variant versus diverging call: last path segment lower-case => fn
        try:
            p = _find_agg_open(rhs, '(')
        except ParseError:
            return False
        seg = re.sub(r'::<.*>$', '', rhs[:p]).split('::')[-1]
        return bool(seg) and (seg[0].islower() or seg[0] == '_')
    return False


def parse_header(line, crate):
    s = line.rstrip()[:-1].rstrip()
    if s.startswith('fn '):
        s = s[3:]
        # params open paren: first '(' at depth 0 outside <>
        try:
            depth = 0
            i = 0
            while i < len(s):
                c = s[i]
                if c == '-' and s[i + 1:i + 2] == '>':
                    i += 2
                    continue
                if c == '(' and depth == 0:
                    break
                if c in '([{<':
                    depth += 1
                elif c in ')]}>':
                    depth -= 1
                i += 1
            k = match_close(s, i)
            name = s[:i].strip()
            params = []
            for part in split_top(s[i + 1:k]):
                m = re.match(r'_(\d+): (.*)$', part, re.S)
                params.append((int(m.group(1)), m.group(2)))
            ret = s[k + 1:].strip()
            ret = ret[2:].strip() if ret.startswith('->') else '()'
            return Body(name, params, ret, crate)
        except (ParseError, AttributeError):
            return None
    m = re.match(r'(promoted\[\d+\] in .*?): (.*) =$', s)
    if m and ' = ' not in m.group(1):
        nm, ty = split_promoted(s)
        return Body(nm, [], ty, crate, 'promoted')
    m = re.match(r'(?:const|static(?: mut)?) (.*): (.*) =$', s)
    if m:
        return Body(m.group(1), [], m.group(2), crate, 'const')
    m = re.match(r'(.*\{constant#\d+\}): (.*) =$', s)
    if m:
        return Body(m.group(1), [], m.group(2), crate, 'const')
    return None


def split_promoted(s):
    s = s[:-1].rstrip()
    depth = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == '-' and s[i + 1:i + 2] == '>':
            i += 2
            continue
        if c in '([{<':
            depth += 1
        elif c in ')]}>':
            depth -= 1
        elif c == ':' and depth == 0 and s[i + 1:i + 2] == ' ':
            return s[:i], s[i + 2:]
        elif c == ':' and depth == 0 and s[i + 1:i + 2] == ':':
            i += 1
        i += 1
    return s, ''
