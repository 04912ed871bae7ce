"""Source-level facts needed to read MIR: struct field names, enum variants,
impl headers (MIR names impls only by source span)."""
import os
import re
from mir import split_top, match_close, ParseError


def strip_code(text):
    """blank out comments and string/char literals, keeping offsets."""
    out = list(text)
    i, n = 0, len(text)

    def blank(a, b):
        for k in range(a, b):
            if out[k] != '\n':
                out[k] = ' '
    while i < n:
        c = text[i]
        if text.startswith('//', i):
            j = text.find('\n', i)
            j = n if j < 0 else j
            blank(i, j)
            i = j
        elif text.startswith('/*', i):
            depth, j = 1, i + 2
            while j < n and depth:
                if text.startswith('/*', j):
                    depth += 1
                    j += 2
                elif text.startswith('*/', j):
                    depth -= 1
                    j += 2
                else:
                    j += 1
            blank(i, j)
            i = j
        elif c == 'r' and re.match(r'r#*"', text[i:i + 6]) and (i == 0 or not (text[i - 1].isalnum() or text[i - 1] == '_')):
            m = re.match(r'r(#*)"', text[i:])
            end = '"' + m.group(1)
            j = text.find(end, i + m.end())
            j = n if j < 0 else j + len(end)
            blank(i + 1, j)
            i = j
        elif c == '"':
            j = i + 1
            while j < n and text[j] != '"':
                j += 2 if text[j] == '\\' else 1
            blank(i + 1, j)
            i = j + 1
        elif c == "'":
            m = re.match(r"'(\\.[^']*|[^'\\])'", text[i:i + 14])
            if m:
                blank(i + 1, i + m.end() - 1)
                i += m.end()
            else:
                i += 1
        else:
            i += 1
    return ''.join(out)


def strip_generics(s):
    """remove <...> (balanced) and lifetimes from a path-like text."""
    out, depth, i = [], 0, 0
    while i < len(s):
        if s.startswith('->', i) or s.startswith('=>', i):
            if depth == 0:
                out.append(s[i:i + 2])
            i += 2
            continue
        c = s[i]
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return ''.join(out).replace('::::', '::').rstrip(':')


def base_ty(t):
    """last path segment of a type text, references/pointers stripped."""
    t = t.strip()
    while True:
        m = re.match(r"(&'?\w*\s*mut |&'\w+ mut |&'\w+ |&mut |&|\*const |\*mut |dyn |impl |mut |for<[^>]*> )", t)
        if not m:
            break
        t = t[m.end():].strip()
    if t.startswith('<'):
        return t
    if t.startswith('['):
        return 'slice'
    if t.startswith('('):
        return 'tuple'
    b = strip_generics(t)
    return b.split('::')[-1].strip()


class SourceInfo:
    @staticmethod
    def _modules(root):
        """files that are modules of the crate, from its lib.rs"""
        out = set()
        work = [(os.path.join(root, 'lib.rs'), root)]
        while work:
            p, d = work.pop()
            p = os.path.abspath(p)
            if p in out or not os.path.exists(p):
                continue
            out.add(p)
            try:
                code = strip_code(open(p, encoding='utf-8').read())
            except (ParseError, OSError):
                return set()
            if '#[path' in code:
                return set()
            for m in re.finditer(r'\bmod\s+(?:r#)?(\w+)\s*(;|\{)', code):
                n = m.group(1)
                work.append((os.path.join(d, n + '.rs'), os.path.join(d, n)))
                work.append((os.path.join(d, n, 'mod.rs'), os.path.join(d, n)))
                if m.group(2) == '{':
                    # files of a module written in place
                    for q in os.listdir(os.path.join(d, n)) if os.path.isdir(os.path.join(d, n)) else ():
                        if q.endswith('.rs'):
                            work.append((os.path.join(d, n, q), os.path.join(d, n, q[:-3])))
        return out

    def __init__(self, repo, crates):
        self.repo = repo
        self.files = {}
        self.code = {}
        self.structs = {}   # (crate, name) -> [list of field-name lists]
        self.enums = {}     # (crate, name) -> [(variant, disc, [fields])]
        self.struct_types = {}
        for c in crates:
            root = os.path.join(repo, c, 'src')
            live = self._modules(root)
            for d, _, fs in os.walk(root):
                for f in sorted(fs):
                    if f.endswith('.rs'):
                        p = os.path.join(d, f)
                        if live and os.path.abspath(p) not in live:
                            continue
                        rel = os.path.relpath(p, repo)
                        txt = open(p, encoding='utf-8').read()
                        self.files[rel] = txt
                        self.code[rel] = strip_code(txt)
                        try:
                            self._decls(c, self.code[rel])
                        except ParseError:
                            pass
        self.all_structs = {}
        for (c, n), v in self.structs.items():
            self.all_structs.setdefault(n, []).extend((c, x) for x in v)
        self.all_enums = {}
        for (c, n), v in self.enums.items():
            self.all_enums.setdefault(n, []).append((c, v))

    def _decls(self, crate, code):
        for m in re.finditer(r'\b(struct|enum)\s+(\w+)', code):
            kind, name = m.group(1), m.group(2)
            i = m.end()
            while i < len(code) and code[i].isspace():
                i += 1
            if i < len(code) and code[i] == '<':
                i = match_close(code, i) + 1
            j = i
            while j < len(code) and code[j] not in '{(;':
                j += 1
            if j >= len(code):
                continue
            if kind == 'struct':
                if code[j] == '{':
                    body = code[j + 1:match_close(code, j)]
                    names, types = [], []
                    for part in split_top(body):
                        nm, ty = self._field(part)
                        if nm:
                            names.append(nm)
                            types.append(ty)
                    self.structs.setdefault((crate, name), []).append(names)
                    self.struct_types.setdefault((crate, name), []).append(dict(zip(names, types)))
                elif code[j] == '(':
                    body = code[j + 1:match_close(code, j)]
                    names = [str(k) for k, _ in enumerate(split_top(body))]
                    self.structs.setdefault((crate, name), []).append(names)
                else:
                    self.structs.setdefault((crate, name), []).append([])
            else:
                if code[j] != '{':
                    continue
                body = code[j + 1:match_close(code, j)]
                vs, disc = [], 0
                for part in split_top(body):
                    p = re.sub(r'#\s*!?\[[^\]]*\]', '', part).strip()
                    mm = re.match(r'(\w+)\s*(.*)$', p, re.S)
                    if not mm:
                        continue
                    vn, rest = mm.group(1), mm.group(2).strip()
                    fields = []
                    if rest.startswith('{'):
                        for fp in split_top(rest[1:match_close(rest, 0)]):
                            nm, _ = self._field(fp)
                            if nm:
                                fields.append(nm)
                    elif rest.startswith('('):
                        fields = [str(k) for k, _ in enumerate(split_top(rest[1:match_close(rest, 0)]))]
                    md = re.search(r'=\s*(-?\d+)\s*$', rest)
                    if md:
                        disc = int(md.group(1))
                    vs.append((vn, disc, fields))
                    disc += 1
                self.enums[(crate, name)] = vs

    def struct_decl(self, crate, name):
        """text of a struct declaration (comments stripped)"""
        for rel, code in sorted(self.code.items()):
            if not rel.startswith(crate + '/'):
                continue
            m = re.search(r'\bstruct\s+%s\b' % re.escape(name), code)
            if m:
                j = m.end()
                if j < len(code) and code[j] == '<':
                    j = match_close(code, j) + 1
                while j < len(code) and code[j] not in '{(;':
                    j += 1
                if j < len(code) and code[j] != ';':
                    return code[m.start():match_close(code, j) + 1]
                return code[m.start():j]
        return None

    def grep_code(self, crate, rx):
        for rel, code in sorted(self.code.items()):
            if rel.startswith(crate + '/'):
                m = re.search(rx, code)
                if m:
                    return '%s:%d' % (rel, code.count('\n', 0, m.start()) + 1)
        return ''

    @staticmethod
    def _field(part):
        p = re.sub(r'#\s*!?\[[^\]]*\]', '', part).strip()
        m = re.match(r'(?:pub\s*(?:\([^)]*\))?\s+)?(\w+)\s*:\s*(.*)$', p, re.S)
        return (m.group(1), m.group(2).strip()) if m else (None, None)

    def field_name(self, crate, ty, idx):
        """name of field idx of struct type text ty, or str(idx)."""
        b = base_ty(ty)
        cands = self.structs.get((crate, b))
        if not cands:
            cands = [x for _, x in self.all_structs.get(b, [])]
        cands = [c for c in (cands or []) if idx < len(c)]
        names = {c[idx] for c in cands}
        if len(names) == 1:
            return names.pop()
        return str(idx)

    def variant_fields(self, crate, ty, variant, idx):
        b = base_ty(ty)
        vs = self.enums.get((crate, b))
        if vs is None:
            alls = self.all_enums.get(b, [])
            vs = alls[0][1] if len(alls) == 1 else None
        if vs:
            for n, _, f in vs:
                if n == variant and idx < len(f):
                    return f[idx]
        return str(idx)

    STD_ENUMS = {
        'Option': [('None', 0), ('Some', 1)], 'Result': [('Ok', 0), ('Err', 1)],
        'ControlFlow': [('Continue', 0), ('Break', 1)], 'Poll': [('Ready', 0), ('Pending', 1)],
        'Ordering': [('Less', -1), ('Equal', 0), ('Greater', 1)], 'Cow': [('Borrowed', 0), ('Owned', 1)],
        'Entry': [('Occupied', 0), ('Vacant', 1)],
    }

    def variants(self, crate, ty):
        b = base_ty(ty)
        if re.match(r"(&|\s|mut|'\w+)*std::", ty.strip()) or (b in self.STD_ENUMS and (crate, b) not in self.enums):
            return self.STD_ENUMS.get(b)
        vs = self.enums.get((crate, b))
        if vs is None:
            alls = self.all_enums.get(b, [])
            vs = alls[0][1] if len(alls) == 1 else None
        return [(n, d) for n, d, _ in vs] if vs else None

    def span_text(self, rel, l1, c1, l2, c2, code=True):
        txt = (self.code if code else self.files).get(rel)
        if txt is None:
            return None
        lines = txt.split('\n')
        if l1 == l2:
            return lines[l1 - 1][c1 - 1:c2 - 1]
        seg = [lines[l1 - 1][c1 - 1:]] + lines[l1:l2 - 1] + [lines[l2 - 1][:c2 - 1]]
        return '\n'.join(seg)

    def impl_header(self, span):
        """span text 'file:l:c: l:c' -> (self type base, trait base|None)"""
        m = re.match(r'(.*?):(\d+):(\d+): (\d+):(\d+)$', span)
        if not m:
            return None
        rel = m.group(1)
        l1, c1, l2, c2 = map(int, m.groups()[1:])
        t = self.span_text(rel, l1, c1, l2, c2)
        if t is None:
            return None
        t = ' '.join(t.split())
        mm = re.match(r'(?:unsafe\s+)?impl\b\s*', t)
        if not mm:
            # derive: the type is the next struct/enum item
            code = self.code[rel]
            off = sum(len(x) + 1 for x in code.split('\n')[:l1 - 1]) + c1
            nx = re.search(r'\b(struct|enum)\s+(\w+)', code[off:])
            return (nx.group(2) if nx else '?', t.strip().split('::')[-1])
        t = t[mm.end():]
        if t.startswith('<'):
            t = t[match_close(t, 0) + 1:].strip()
        parts = _split_for(t)
        w = re.search(r'\bwhere\b', parts[-1])
        if w:
            parts[-1] = parts[-1][:w.start()]
        if len(parts) == 2:
            return (base_ty(parts[1]), base_ty(parts[0]))
        return (base_ty(parts[0]), None)


def _split_for(t):
    depth = 0
    for i in range(len(t)):
        c = t[i]
        if c in '<([':
            depth += 1
        elif c in '>)]' and t[i - 1:i] != '-':
            depth -= 1
        elif depth == 0 and t.startswith(' for ', i):
            return [t[:i].strip(), t[i + 5:].strip()]
    return [t.strip()]
