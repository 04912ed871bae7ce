"""D08: what the loaders read from disk; D09: clouds with labels or names put on; the memory map under a cloud."""
from itertools import product
import sem
from rules import prop
from rules.cloud import Ints, is_err, okval, rng
from rules.labels import is_none, okdeep
from rules.server import Cell, plain, same, each_way, fails
from rulelib import *

PCR = 'pointcloud'
OPQ = ('loaders::open_memmaps', 'loaders::convert_glued_memmap_to_ram', 'DataMemmap::new', 'HashGluedCloud::new', 'DataMemmap::convert_to_labels',
       'SimpleLabeledCloud::new', 'csv_loaders::open_int_csv', 'csv_loaders::read_csv', 'DataMemmap::convert_to_ram', 'DataRam::merge', 'SmallIntLabels::merge',
       'VecLabels::one_hot_to_int', 'VecLabels::binary_to_int', 'yaml_loaders::get_file_list', 'yaml_loaders::labels_from_yaml', 'yaml_loaders::ram_from_yaml',
       'DataRam::convert_to_labels')


class Lit(Cell):
    """whole numbers, strings and lists of them"""

    def val(self, t):
        t = strip_mut(t)
        if t.op == 'bin' and t.a[0] in ('Div', 'Rem') and self.base(t) is None:
            a, b = self.val(t.a[1]), self.val(t.a[2])
            if isinstance(a, int) and isinstance(b, int) and b:
                return a // b if t.a[0] == 'Div' else a % b
        return Cell.val(self, t)


def call_of(t, name):
    """arguments of the call the term carries"""
    t = okdeep(t)
    return t.a[1] if t.op == 'call' and t.a[0].endswith(name) else None


# ---- csv ---------------------------------------------------------------------------------

def records(t):
    a = call_of(t, 'Reader::records') or call_of(t, 'Reader::into_records')
    return a is not None and is_param(a[0], 2)


@prop('D08')
def csv_rows(ctx):
    b = ctx.free('read_csv', crate=PCR)
    fr, evs = ctx.frame(b, ('SmallIntLabels::new',)), ctx.events(b, ('SmallIntLabels::new',))
    ret = fr.ret()
    field_at = lambda t: t.op == 'call' and t.a[0].split('::')[-1] == 'get' and len(t.a[1]) == 2 and mentions(t.a[1][0], records)
    wrong = [e for e in calls(evs, 'StringRecord::get') if same(e.args[1], lambda t: is_param(t, 0)) is False]
    ctx.ob('csv/field', 'the label is the field at the index asked', not wrong, wrong[0] if wrong else b.name, wrong and show(wrong[0].args[1]) or '')
    parse = lambda t: t.op == 'call' and t.a[0].split('::')[-1] in ('parse', 'from_str') and mentions(t, field_at)

    def cell(kind, v=None):
        def leaf(t):
            if t.op == 'each' and records(t.a[0]):
                return kind != 'no record'
            if t.op in ('is', 'try'):
                x = strip_mut(t.a[0])
                if x.op == 'elem' and records(x.a[0]):
                    return t.a[1] in (('Err', 'err') if kind == 'broken' else ('Ok', 'ok'))
                if field_at(okdeep(x)) and not parse(okdeep(x)):
                    return t.a[1] in (('None', 'err') if kind == 'missing' else ('Some', 'ok'))
                if parse(okdeep(x)):
                    return t.a[1] in (('Err', 'err', 'None') if kind == 'text' else ('Ok', 'ok', 'Some'))
            if t.op == 'payload' and parse(okdeep(t)):
                return v
            return None
        return Lit(evs, leaf)

    def made(S):
        t = S.term(ret)
        if is_err(t):
            return 'fails'
        a = call_of(t, 'SmallIntLabels::new')
        if a is None:
            t = okdeep(t)
            d = dict(t.a[1]) if t.op == 'agg' else {}
            if not {'labels', 'mask'} <= set(d):
                raise Unknown(t)
            a = (d['labels'], d['mask'])

        def vec(x):
            x = strip_mut(x)
            while x.op in ('payload', 'some', 'ok', 'narrow'):
                x = strip_mut(x.a[0])
            if x.op == 'mapped':
                return [S.val(x.a[1])] if S._runs(x.a[0]) else []
            return [S.val(y) for y in S.content(x)]
        lab = vec(a[0])
        m = S.term(a[1])
        return lab, None if is_none(m) else vec(m) if not (m.op == 'call' or m.op == 'phi') else (_ for _ in ()).throw(Unknown(m))

    def want(key, S, ok):
        try:
            got = made(S)
        except Unknown as u:
            return ctx.tri('csv/row', key, None, b.name, show(u.args[0]) if u.args and isinstance(u.args[0], sem.T) else '')
        ctx.ob('csv/row', key, ok(got), b.name, 'labels and mask: %s' % (got,))
    want('no records: no labels', cell('no record'), lambda g: g != 'fails' and g[0] == [] and g[1] in (None, []))
    for v in (-(2 ** 62), -7, -1):
        want('%d: one label, masked' % v, cell('value', v), lambda g: g != 'fails' and len(g[0]) == 1 and g[1] == [False])
    for v in (0, 1, 9, 10 ** 6, 2 ** 62):
        want('%d: that label, not masked' % v, cell('value', v), lambda g: g != 'fails' and g[0] == [v] and g[1] in (None, [True]))
    want('a record without the field: one label, masked', cell('missing'), lambda g: g != 'fails' and len(g[0]) == 1 and g[1] == [False])
    want('a field that is no integer: a failure', cell('text', 5), lambda g: g == 'fails')
    # a record that cannot be read is not skipped
    pushes = calls(evs, 'Vec::push')
    if any(is_res_guard(a) for e in pushes for a in must_all(e)):
        want('a record that cannot be read: a failure', cell('broken', 5), lambda g: g == 'fails')
    else:
        ctx.ob('csv/row', 'a record that cannot be read is not skipped', True, b.name)


@prop('D08')
def csv_mask(ctx):
    """the mask is kept as soon as one bit is off"""
    b = ctx.free('read_csv', crate=PCR)
    fr, evs = ctx.frame(b, ('SmallIntLabels::new',)), ctx.events(b, ('SmallIntLabels::new',))
    vecs = {strip_mut(e.args[0]) for e in calls(evs, 'Vec::push')}
    for bits in ((True, True), (True, False), (False, True), (False, False), (True, True, False), (False, True, True)):
        def leaf(t):
            if t.op == 'call' and t.a[0].split('::')[-1] in ('any', 'all') and len(t.a[1]) == 2 and strip_mut(t.a[1][0]) in vecs:
                v = strip_mut(t.a[1][0])
                rs = [bool(Lit(evs, lambda y: x if y.op == 'elem' and strip_mut(y.a[0]) is v else None).val(t.a[1][1])) for x in bits]
                return any(rs) if t.a[0].endswith('any') else all(rs)
            if t.op == 'call' and t.a[0].split('::')[-1] == 'contains' and strip_mut(t.a[1][0]) in vecs:
                return S.val(t.a[1][1]) in bits
            return None
        S = Lit(evs, leaf)
        t = S.term(fr.ret())
        a = call_of(t, 'SmallIntLabels::new')
        if a is None:
            ctx.tri('csv/mask', 'bits %s' % (bits,), None, b.name, show(t))
            continue
        m = strip_mut(S.term(a[1]))
        kept = False if is_none(m) else True if okdeep(m) in vecs else None
        ctx.tri('csv/mask', 'bits %s: the mask is kept' % (bits,) if not all(bits) else 'bits %s' % (bits,), True if all(bits) and kept is not None else kept, b.name, show(m))


def must_all(e):
    return sem.must_atoms(e.guard)


def is_res_guard(a):
    return a.op == 'is' and a.a[1] in ('Ok', 'Some') and strip_mut(a.a[0]).op == 'elem' and records(strip_mut(a.a[0]).a[0])


@prop('D08')
def csv_open(ctx):
    b = ctx.free('open_int_csv', crate=PCR)
    fr, evs = ctx.frame(b, OPQ), ctx.events(b, OPQ)
    for ext in ('gz', 'csv', 'txt'):
        def leaf(t):
            if t.op == 'payload' and okdeep(t).op == 'call' and okdeep(t).a[0].split('::')[-1] in ('extension', 'to_str') and mentions(t, lambda x: is_call(x, 'Path::extension')):
                return '"%s"' % ext
            if t.op == 'const' and t.a[0][:1] == '"':
                return t.a[0]
            return None
        S = Lit(evs, leaf)
        try:
            t = S.term(fr.ret())
        except Unknown:
            ctx.tri('csv/open', ext, None, b.name)
            continue
        a = call_of(t, 'read_csv')
        if a is None:
            ctx.tri('csv/open', '.%s' % ext, None, b.name, show(t))
            continue
        ctx.tri('csv/open', '.%s: the column asked' % ext, same(a[0], lambda x: is_param(x, 1)), b.name, show(a[0]))
        r = call_of(a[2], 'Reader::from_reader')
        if r is None:
            ctx.tri('csv/open', '.%s: the file' % ext, None, b.name, show(a[2]))
            continue
        x, gz = okdeep(r[0]), False
        while x.op == 'call' and x.a[0].split('::')[-1] == 'new' and x.a[0].split('::')[-2] in ('GzDecoder', 'MultiGzDecoder', 'BufReader'):
            gz = gz or 'Gz' in x.a[0]
            x = okdeep(x.a[1][0])
        f = x.a[1][-1] if x.op == 'call' and x.a[0].split('::')[-1] == 'open' else None
        ctx.tri('csv/open', '.%s: the file given, %s' % (ext, 'unpacked' if ext == 'gz' else 'as it is'), None if f is None or not mentions(f, lambda y: is_param(y, 0)) else gz == (ext == 'gz'), b.name, show(r[0]))


# ---- memory maps -----------------------------------------------------------------------------

def opened(t, dim, paths):
    """DataMemmap::new(dim, p)? for p in paths"""
    a = call_of(t, 'DataMemmap::new')
    return a is not None and is_param(a[0], dim) and is_elem(a[1], paths)


def is_elem(t, i):
    t = strip_mut(t)
    return t.op == 'elem' and is_param(t.a[0], i)


def every(ctx, key, seq, b, bases):
    """the mapped sequence runs over every element of the parameters, in order"""
    seq = okdeep(seq)
    x = seq
    bad = False
    while x.op in ('rev', 'sorted', 'filtered', 'taken', 'stepby', 'enumerate') or (x.op == 'mapped' and x is not seq):
        bad = bad or x.op not in ('enumerate', 'mapped')
        x = strip_mut(x.a[0])
    if bad:
        ctx.ob('memmap/every', key, False, b.name, show(seq))
        return None
    if x.op != 'mapped':
        ctx.tri('memmap/every', key, None, b.name, show(seq))
        return None
    src = strip_mut(x.a[0])
    while src.op in ('enumerate', 'payload', 'narrow'):
        src = strip_mut(src.a[0])
    if src.op == 'zip':
        ok = len(src.a) == len(bases) and all(any(is_param(y, i) for y in src.a) for i in bases)
    else:
        ok = len(bases) == 1 and is_param(src, bases[0])
    ctx.tri('memmap/every', key, True if ok else False if plain(src) and src.op in ('rev', 'filtered', 'taken', 'stepby', 'sorted') or (src.op == 'zip' and any(strip_mut(y).op in ('rev', 'filtered', 'taken', 'stepby', 'sorted') for y in src.a)) else None, b.name, show(src))
    return x.a[1] if ok else None


@prop('D08')
def memmaps(ctx):
    b = ctx.free('open_memmaps', crate=PCR)
    evs, m = ctx.nevents(b, OPQ)
    S = Lit(evs, lambda t: None)
    t = S.term(subst(ctx.frame(b, OPQ).ret(), m))
    a = call_of(t, 'HashGluedCloud::new')
    if a is None:
        ctx.tri('memmap/every', 'open_memmaps', None, b.name, show(t))
    else:
        v = every(ctx, 'open_memmaps opens every file, in order', a[0], b, (1,))
        if v is not None:
            v = okdeep(S.term(v))
            c = call_of(v, 'DataMemmap::new')
            ctx.tri('memmap/open', 'open_memmaps: each file, of the dimension given', None if c is None else same(mk('agg', 'tuple', (('0', c[0]), ('1', c[1]))), lambda x: is_param(c[0], 0) and is_elem(c[1], 1)), b.name, show(v))
    b = ctx.free('open_labeled_memmaps', crate=PCR)
    evs, m = ctx.nevents(b, OPQ)
    fr = ctx.frame(b, OPQ)
    for n, k in ((2, 1), (1, 2), (0, 1), (1, 0), (3, 3)):
        L = lambda t: len_of(t) is not None and is_param(len_of(t), 2)
        def leaf(t):
            if len_of(t) is not None:
                return n if is_param(len_of(t), 2) else k if is_param(len_of(t), 3) else None
            return None
        S = Lit(evs, leaf)
        ps = [e for e in evs if e.kind == 'call' and 'panic' in e.name]
        try:
            v = bool(S.fired(ps)) or is_err(S.term(fr.ret()))
            ctx.tri('memmap/pairs', '%d data and %d label files' % (n, k), None if n != k and not v and not ps else v == (n != k), b.name)
        except Unknown:
            ctx.tri('memmap/pairs', '%d data and %d label files' % (n, k), None, b.name)
    S = Lit(evs, lambda t: None)
    t = S.term(subst(fr.ret(), m))
    a = call_of(t, 'HashGluedCloud::new')
    v = every(ctx, 'open_labeled_memmaps opens every pair, in order', a[0], b, (2, 3)) if a is not None else None
    if v is None:
        return
    c = call_of(S.term(v), 'SimpleLabeledCloud::new')
    if c is None:
        return ctx.undecided('open_labeled_memmaps: ' + show(v))
    d = okdeep(c[0])
    ctx.tri('memmap/open', 'open_labeled_memmaps: the data of each pair, of its dimension', same(d, lambda x: opened(x, 0, 2)), b.name, show(d))
    l = call_of(c[1], 'DataMemmap::convert_to_labels')
    ctx.tri('memmap/open', 'open_labeled_memmaps: the labels of each pair, of their dimension', None if l is None else same(okdeep(l[0]), lambda x: opened(x, 1, 3)), b.name, show(c[1]))


def gathered(ctx, rule, key, b, evs, ret, merge, elem_ok, seq_ok):
    """the result is the first element with every later one merged into it, in order"""
    t = okdeep(ret)
    ms = calls(evs, merge)
    dr = [e for e in calls(evs, 'Vec::drain')]
    for e in dr:
        r = rng(e.args[1])
        if r is not None:
            full = (r[1] is None or intval(r[1]) == 0) and r[2] is None
            if not full and (r[1] is not None and intval(r[1]) not in (0, None)):
                return ctx.ob(rule, key, False, e, 'not all of them are taken: ' + show(e.args[1]))
    if len(ms) != 1:
        return ctx.tri(rule, key, None if ms else False if plain(t) else None, b.name, show(t))
    e = ms[0]
    acc, x = strip_mut(e.args[0]), strip_mut(e.args[1])
    back = lambda y: y.op == 'rec' or (y.op == 'phi' and any(strip_mut(v).op == 'rec' for _, v in sem.alts(y)))
    if back(x) and not back(acc):
        return ctx.ob(rule, key, False, e, 'the earlier ones are appended to the later: ' + show(x))
    if not back(acc):
        return ctx.tri(rule, key, None, e, show(acc))
    els = [y for y in sem.subterms(x) if y.op == 'elem']
    src = strip_mut(els[-1].a[0]) if els else None
    for y in els:
        s = strip_mut(y.a[0])
        if mentions(s, lambda z: z.op in ('rev', 'sorted', 'taken', 'filtered', 'stepby')):
            return ctx.ob(rule, key, False, e, 'not every one in order: ' + show(s))
    for r in evs:
        if r.kind == 'call' and r.name.split('::')[-1] in ('reduce', 'fold') and mentions(r.args[0], lambda z: z.op in ('rev', 'sorted', 'taken', 'filtered', 'stepby')):
            return ctx.ob(rule, key, False, r, 'not every one in order: ' + show(r.args[0]))
    conds = [a for a in sem.must_atoms(e.guard) if not loopish(a) and a.op != 'try']
    if conds:
        return ctx.tri(rule, key, False if any(mentions(a, lambda z: z.op == 'rec') for a in conds) else None, e, 'merged only if ' + show(conds[0]))
    ctx.tri(rule, key, True if elem_ok(x) and any(seq_ok(strip_mut(y.a[0])) for y in els) else None, e, show(x))


@prop('D08')
def to_ram(ctx):
    b = ctx.free('convert_glued_memmap_to_ram', crate=PCR)
    fr, evs = ctx.frame(b, OPQ), ctx.events(b, OPQ)
    gathered(ctx, 'memmap/ram', 'the rows of every source, in order', b, evs, fr.ret(), 'DataRam::merge',
             lambda x: call_of(x, 'convert_to_ram') is not None, lambda s: path(s) == ('$0', 'data_sources'))


# ---- yaml ----------------------------------------------------------------------------------

def key(t, kind):
    """the entry of the yaml file the term is read from"""
    a = call_of(t, 'Yaml::' + kind)
    if a is None:
        return None
    x = strip_mut(a[0])
    if x.op != 'index':
        return None
    k = strip_mut(x.a[1])
    if k.op != 'const' or not mentions(x.a[0], lambda y: is_call(y, 'YamlLoader::load_from_str')):
        return None
    return k.a[0].strip('"')


def files(t, k):
    """the files named under k, looked up from where the yaml is"""
    a = call_of(t, 'get_file_list')
    if a is None:
        return None
    got = key(a[0], 'as_str')
    if got is None or not is_param(a[1], 0):
        return None
    return got == k


def maps(t, dim, k):
    """rows of the memmaps under k with the dimension under dim"""
    a = call_of(t, 'convert_glued_memmap_to_ram')
    o = call_of(a[0], 'open_memmaps') if a else None
    if o is None:
        return None
    d, f = key(o[0], 'as_i64'), files(o[1], k)
    if d is None or f is None:
        return None
    return d == dim and f


@prop('D08')
def yaml_files(ctx):
    R = 'yaml/keys'
    b = ctx.free('ram_from_yaml', crate=PCR)
    S = Lit(ctx.events(b, OPQ), lambda t: None)
    t = S.term(ctx.frame(b, OPQ).ret())
    ctx.tri(R, 'ram_from_yaml: data_path with data_dim', maps(t, 'data_dim', 'data_path'), b.name, show(t))
    b = ctx.free('vec_labeled_ram_from_yaml', crate=PCR)
    S = Lit(ctx.events(b, OPQ), lambda t: None)
    t = S.term(ctx.frame(b, OPQ).ret())
    a = call_of(t, 'SimpleLabeledCloud::new')
    ctx.tri(R, 'vec_labeled_ram_from_yaml: the points are data_path with data_dim', maps(a[0], 'data_dim', 'data_path') if a else None, b.name, show(t))
    l = call_of(a[1], 'DataRam::convert_to_labels') if a else None
    ctx.tri(R, 'vec_labeled_ram_from_yaml: the labels are labels_path with labels_dim', maps(l[0], 'labels_dim', 'labels_path') if l else None, b.name, show(t))
    b = ctx.free('labeled_ram_from_yaml', crate=PCR)
    S = Lit(ctx.events(b, OPQ), lambda t: None)
    t = S.term(ctx.frame(b, OPQ).ret())
    a = call_of(t, 'SimpleLabeledCloud::new')
    p = call_of(a[0], 'ram_from_yaml') if a else None
    l = call_of(a[1], 'labels_from_yaml') if a else None
    ctx.tri(R, 'labeled_ram_from_yaml: the points and the labels of the yaml', None if not p or not l else is_param(p[0], 0) and is_param(l[0], 0) or None, b.name, show(t))


def number(S, t, n):
    try:
        return S.val(t) == n
    except Unknown:
        return None


def mentions_guard(e, src):
    return any(mentions(a, lambda y: y.op == 'elem' and strip_mut(y.a[0]) is src) for c in e.guard for a in c)


@prop('D08')
def yaml_labels(ctx):
    b = ctx.free('labels_from_yaml', crate=PCR)
    fr, evs = ctx.frame(b, OPQ), ctx.events(b, OPQ)
    gathered(ctx, 'yaml/labels', 'the labels of every file, in order', b, evs, Lit(evs, lambda t: None).term(fr.ret()), 'SmallIntLabels::merge',
             lambda x: True, lambda s: files(s, 'labels_path') or (okdeep(s).op == 'mapped' and files(okdeep(s).a[0], 'labels_path')))
    maps_ = [x for x in sem.subterms(fr.ret()) if x.op == 'mapped' and call_of(x.a[0], 'get_file_list') is not None]
    if not maps_:
        return ctx.undecided('labels_from_yaml: ' + show(fr.ret()))
    src = strip_mut(maps_[0].a[0])
    val = maps_[0].a[1]
    ctx.tri('yaml/labels', 'the files are those of labels_path', files(src, 'labels_path'), b.name, show(src))
    is_file = lambda t: strip_mut(t).op == 'elem' and strip_mut(strip_mut(t).a[0]) is src
    for ext, ix, dim in product(('csv', 'gz', 'dat', 'txt'), (None, 0, 3), (None, 1, 2, 10)):
        def leaf(t):
            if t.op == 'payload' and okdeep(t).op == 'call' and okdeep(t).a[0].split('::')[-1] in ('to_str', 'extension') and mentions(t, lambda x: is_call(x, 'Path::extension')):
                return '"%s"' % ext
            if t.op == 'each':
                return True
            k = key(t, 'as_i64') if t.op in ('payload', 'call') else None
            if t.op == 'payload' and k:
                return {'labels_index': ix, 'labels_dim': dim}.get(k)
            if t.op == 'is' and t.a[1] in ('Some', 'None'):
                x = strip_mut(t.a[0])
                while x.op == 'optmap':
                    x = strip_mut(x.a[0])
                k = key(x, 'as_i64')
                if k in ('labels_index', 'labels_dim'):
                    return ({'labels_index': ix, 'labels_dim': dim}[k] is None) == (t.a[1] == 'None')
            if t.op == 'is' and strip_mut(t.a[0]).op == 'call' and strip_mut(t.a[0]).a[0].split('::')[-1] == 'cmp':
                x = strip_mut(t.a[0])
                p, q = S.val(x.a[1][0]), S.val(x.a[1][1])
                return t.a[1] == ('Less' if p < q else 'Greater' if p > q else 'Equal')
            return None
        S = Lit(evs, leaf)
        nm = '.%s file, labels_index %s, labels_dim %s' % (ext, 'none' if ix is None else ix, 'none' if dim is None else dim)
        try:
            t = okdeep(S.term(val))
        except Unknown:
            t = None
        want = 'csv' if ext in ('csv', 'gz') and ix is not None else 'dat' if ext == 'dat' and dim is not None else None
        if want is None:
            # refused, not read as something else
            ps = False
            for e in evs:
                if e.kind == 'call' and 'panic' in e.name and mentions_guard(e, src):
                    try:
                        ps = ps or S.guard(e.guard)
                    except Unknown:
                        pass
            v = True if ps or (t is not None and is_err(t)) else False if t is not None and t.op == 'call' else None
            ctx.tri('yaml/labels', nm + ': refused', v, b.name, show(t) if t is not None else '')
            continue
        if t is None or t.op == 'phi':
            ctx.tri('yaml/labels', nm, None, b.name, show(val))
            continue
        if want == 'csv':
            a = call_of(t, 'open_int_csv')
            v = None if a is None else (is_file(a[0]) or None) and number(S, a[1], ix)
            ctx.tri('yaml/labels', nm + ': the column of the csv', False if a is None and t.op == 'call' and plain(t) else v, b.name, show(t))
        else:
            fn = 'one_hot_to_int' if dim > 1 else 'binary_to_int'
            a = call_of(t, fn)
            l = call_of(a[0], 'convert_to_labels') if a else None
            o = call_of(l[0], 'DataMemmap::new') if l else None
            v = None if o is None else (is_file(o[1]) or None) and number(S, o[0], dim)
            ctx.tri('yaml/labels', nm + ': ' + fn, False if a is None and t.op == 'call' and t.a[0].split('::')[-1] in ('one_hot_to_int', 'binary_to_int', 'open_int_csv') else v, b.name, show(t))


@prop('D08')
def file_list(ctx):
    b = ctx.free('get_file_list', crate=PCR)
    evs, m = ctx.nevents(b)
    fr = ctx.frame(b)
    gs = calls(evs, 'glob::glob_with', 'glob::glob')
    if not gs:
        return ctx.undecided('get_file_list: no glob')
    for ab in (True, False):
        S = Lit(evs, lambda t: ab if t.op == 'call' and t.a[0].endswith('is_absolute') else (t.a[1] is not False) == ab if t.op == 'bool' and is_call(t.a[0], 'is_absolute') else not ab if t.op == 'call' and t.a[0].endswith('is_relative') else None)
        try:
            f = S.fired(gs)
        except Unknown:
            ctx.tri('yaml/glob', 'absolute' if ab else 'relative', None, b.name)
            continue
        if len(f) != 1:
            ctx.tri('yaml/glob', 'absolute' if ab else 'relative', None if len(f) > 1 else False, b.name)
            continue
        p = strip_mut(S.term(f[0].args[0]))
        while p.op in ('payload', 'call') and (p.op == 'payload' or p.a[0].split('::')[-1] in ('to_str', 'to_string_lossy', 'new', 'from', 'display', 'to_path_buf', 'to_string', 'as_path')):
            p = strip_mut(p.a[0] if p.op == 'payload' else p.a[1][0])
        if ab:
            # joining an absolute path to another gives the absolute one
            j = p.a[1] if p.op == 'call' and p.a[0].endswith('Path::join') else None
            q = j[1] if j else p
            v = same(q, lambda t: mentions(t, lambda y: is_param(y, 0)))
            ctx.tri('yaml/glob', 'an absolute pattern is used as it is', v, f[0], show(p))
        else:
            j = p.a[1] if p.op == 'call' and p.a[0].endswith('Path::join') else None
            if j is None:
                ctx.tri('yaml/glob', 'a relative pattern is looked up beside the yaml', False if is_param(p, 0) else None, f[0], show(p))
                continue
            base = strip_mut(j[0])
            v = same(base, lambda t: is_call(t, 'Path::parent') and is_param(okdeep(t).a[1][0], 1)) and same(j[1], lambda t: mentions(t, lambda y: is_param(y, 0)))
            ctx.tri('yaml/glob', 'a relative pattern is looked up beside the yaml', v, f[0], show(p))
    t = strip_mut(Lit(evs, lambda t: None).term(subst(fr.ret(), m)))
    x, bad = okdeep(t), False
    while x.op in ('mapped', 'rev', 'filtered', 'taken', 'stepby', 'enumerate', 'payload', 'narrow', 'phi'):
        bad = bad or x.op in ('rev', 'taken', 'stepby')
        if x.op == 'phi':
            x = strip_mut(sem.alts(x)[0][1])
        else:
            x = strip_mut(x.a[0])
    sorts = [e for e in evs if e.kind == 'call' and e.name.split('::')[-1] in ('reverse', 'truncate', 'pop', 'dedup', 'swap')]
    ctx.tri('yaml/glob', 'every file found, in the order found', False if bad or sorts else True if mentions(x, lambda y: is_call(y, 'glob_with', 'glob')) else None, b.name, show(t))


# ---- clouds put together ----------------------------------------------------------------------

PARTS = {'SimpleLabeledCloud': {'label': 'labels', 'label_summary': 'labels'}, 'SimpleNamedCloud': {'name': 'names', 'index': 'names', 'names': 'names'}}
METHODS = ('dim', 'len', 'is_empty', 'reference_indexes', 'point', 'metadata', 'metasummary', 'label', 'label_summary', 'name', 'index', 'names')


def flat(t):
    """made of the parameters, their parts and constants"""
    return all(x.op in ('param', 'field', 'const', 'call', 'index', 'agg', 'bin', 'payload', 'ok', 'elem') for x in sem.subterms(t))


@prop('D09')
def wrappers(ctx):
    for ty, own in PARTS.items():
        for m in METHODS:
            b = ctx.body(ty, m, trait='PointCloud')
            S = Lit(ctx.events(b), lambda t: None)
            fr = ctx.frame(b)
            t = strip_mut(S.term(fr.ret()))
            part = own.get(m, 'data')

            def asks(x):
                x = okdeep(x)
                if x.op == 'phi':
                    return all(asks(v) or is_err(v) for _, v in sem.alts(x))
                return x.op == 'call' and x.a[0].split('::')[-1] == m and selff(x.a[1][0], part) and all(is_param(y, i + 1) for i, y in enumerate(x.a[1][1:]))
            v = asks(t)
            if not v:
                x = okdeep(t)
                # asks another part, or for another point
                if x.op == 'const' or is_none(x) or (x.op == 'call' and flat(x) and (selff(x.a[1][0], 'data') or selff(x.a[1][0], part)) and x.a[0].split('::')[-1] in METHODS):
                    v = False
                    if m == 'is_empty' and x.op == 'call':
                        v = None
                else:
                    v = None
                    if m == 'is_empty':
                        # len() == 0
                        r = []
                        for n in (0, 1, 7):
                            try:
                                r.append(bool(Lit([], lambda y: n if y.op == 'call' and y.a[0].split('::')[-1] == 'len' and selff(y.a[1][0], 'data') else n if len_of(y) is not None and selff(len_of(y), 'data') else None).val(t)) == (n == 0))
                            except Unknown:
                                r.append(None)
                        v = None if None in r else all(r)
            ctx.tri('parts', '%s::%s is that of its %s' % (ty, m, part), v, b.name, show(t))
        b = ctx.body(ty, 'new')
        t = okdeep(Lit(ctx.events(b), lambda t: None).term(ctx.frame(b).ret()))
        d = dict(t.a[1]) if t.op == 'agg' else {}
        other = 'labels' if ty == 'SimpleLabeledCloud' else 'names'
        ctx.tri('parts', '%s::new keeps what it is given' % ty, None if set(d) != {'data', other} else is_param(d['data'], 0) and is_param(d[other], 1), b.name, show(t))
    b = ctx.body('SimpleNamedCloud', 'new')
    evs = ctx.events(b)
    ps = [e for e in evs if e.kind == 'call' and ('panic' in e.name or 'assert_failed' in e.name)]
    for n, k in ((0, 0), (3, 3), (3, 2), (2, 3), (0, 1)):
        def leaf(t):
            x = len_of(t) if len_of(t) is not None else t.a[1][0] if t.op == 'call' and t.a[0].split('::')[-1] == 'len' else None
            if x is None:
                return None
            return n if is_param(x, 0) else k if is_param(x, 1) else None
        S = Lit(evs, leaf)
        try:
            ctx.ob('parts', 'SimpleNamedCloud: %d points and %d names %s' % (n, k, 'are taken' if n == k else 'are refused'), bool(S.fired(ps)) == (n != k), b.name)
        except Unknown:
            ctx.tri('parts', 'SimpleNamedCloud: %d points and %d names' % (n, k), None, b.name)


# ---- the memory map --------------------------------------------------------------------------

PAGE = 4096


def sys_leaf(t):
    if t.op == 'call' and (t.a[0].endswith('sysconf') or t.a[0].endswith('page_size')):
        return PAGE
    return None


def pointer(S, t, base):
    """bytes the address lies after base"""
    t = strip_mut(t)
    if base(t):
        return 0
    if t.op == 'call' and t.a[0].split('::')[-1] in ('offset', 'add', 'wrapping_add', 'wrapping_offset', 'byte_add', 'byte_offset'):
        return pointer(S, t.a[1][0], base) + S.val(t.a[1][1])
    if t.op == 'call' and t.a[0].split('::')[-1] in ('sub', 'wrapping_sub', 'byte_sub'):
        return pointer(S, t.a[1][0], base) - S.val(t.a[1][1])
    if t.op == 'call' and t.a[0].split('::')[-1] in ('cast', 'cast_mut', 'cast_const'):
        return pointer(S, t.a[1][0], base)
    raise Unknown(t)


@prop('D08')
def mapping(ctx):
    b = ctx.body('Mmapf32', 'map', crate=PCR)
    fr, evs = ctx.frame(b), ctx.events(b)
    mm = calls(evs, 'libc::mmap')
    order = None
    for n in (4, 12, 4096, 4100, 40000):
        def leaf(t):
            v = sys_leaf(t)
            if v is not None:
                return v
            if t.op == 'call' and t.a[0].endswith('Metadata::len') and mentions(t, lambda y: is_param(y, 0)):
                return n
            if t.op == 'call' and t.a[0].endswith('Default::default'):
                return 0
            if t.op == 'is' and is_call(t.a[0], 'Default::default'):
                return t.a[1] == 'None'
            if t.op == 'const' and t.a[0].endswith('usize::MAX'):
                return 2 ** 64 - 1
            if t.op == 'bin' and t.a[0] == 'Eq' and any(is_call(x, 'libc::mmap') for x in t.a[1:]):
                return False
            if t.op == 'bin' and t.a[0] == 'Ne' and any(is_call(x, 'libc::mmap') for x in t.a[1:]):
                return True
            if t.op in ('Eq', 'Ne') and any(isinstance(x, sem.T) and is_call(x, 'libc::mmap') for x in t.a):
                return t.op == 'Ne'
            return None
        S = Lit(evs, leaf)
        try:
            f = S.fired(mm)
            if len(f) != 1:
                raise Unknown(mm)
            a = f[0].args
            ctx.ob('map/whole', 'a file of %d bytes is mapped whole, from its start' % n, (S.val(a[1]), S.val(a[5])) == (n, 0), f[0], show(a[1]))
            ctx.tri('map/whole', 'of the file given (%d)' % n, same(a[4], lambda x: mentions(x, lambda y: is_param(y, 0))), f[0], show(a[4]))
            t = okdeep(S.term(fr.ret()))
            while t.op == 'optmap':
                t = okdeep(t.a[1])
            t = okdeep(S.term(t))
            d = dict(t.a[1]) if t.op == 'agg' else {}
            inner = okdeep(d.get('inner', t))
            if inner.op != 'agg':
                raise Unknown(inner)
            order = [k for k, _ in inner.a[1]]
            d = dict(inner.a[1])
            size = S.val(d['len'])
            off = pointer(S, d['ptr'], lambda y: is_call(y, 'libc::mmap'))
            ctx.ob('map/whole', 'the map of %d bytes starts where it was mapped' % n, off == 0, b.name, show(d['ptr']))
        except (Unknown, KeyError):
            ctx.tri('map/whole', 'a file of %d bytes' % n, None, b.name)
            continue
        # what is seen and what is unmapped
        fields = {'ptr': 'P', 'len': size}

        def at(t):
            p = path(t)
            f = p[-1] if p else None
            if f is not None and str(f).isdigit() and int(f) < len(order):
                f = order[int(f)]
            return f if p and p[0] == '$0' and f in fields else None
        for ty, meth, tr in (('Mmapf32', 'deref', 'Deref'), ('MmapInner', 'drop', 'Drop')):
            bb = ctx.body(ty, meth, trait=tr, crate=PCR)
            ev2 = ctx.events(bb)

            def leaf2(t):
                v = sys_leaf(t)
                if v is not None:
                    return v
                f = at(t)
                if f == 'len':
                    return size
                if f == 'ptr':
                    return 1 << 20
                return None
            T_ = Lit(ev2, leaf2)
            try:
                if meth == 'deref':
                    fs = calls(ev2, 'slice::from_raw_parts')
                    if len(fs) != 1:
                        raise Unknown(fs)
                    got = (pointer(T_, fs[0].args[0], lambda y: at(y) == 'ptr'), T_.val(fs[0].args[1]))
                    ctx.ob('map/values', '%d bytes are %d values' % (n, n // 4), got == (0, n // 4), fs[0], 'it sees %d values from byte %d' % (got[1], got[0]))
                else:
                    fs = calls(ev2, 'libc::munmap')
                    if len(fs) != 1:
                        raise Unknown(fs)
                    got = (pointer(T_, fs[0].args[0], lambda y: at(y) == 'ptr'), T_.val(fs[0].args[1]))
                    ctx.ob('map/free', 'a map of %d bytes is given back whole' % n, got == (0, n), fs[0], 'it unmaps %d bytes from byte %d' % (got[1], got[0]))
            except Unknown:
                ctx.tri('map/' + meth, '%d bytes' % n, None, bb.name)
    # opened under the dimension and path given
    b = ctx.body('DataMemmap', 'new', crate=PCR)
    S = Lit(ctx.events(b, ('Mmapf32::map',)), lambda t: None)
    t = okdeep(S.term(ctx.frame(b, ('Mmapf32::map',)).ret()))
    d = dict(t.a[1]) if t.op == 'agg' else {}
    if not {'data', 'dim'} <= set(d):
        return ctx.undecided('DataMemmap::new: ' + show(t))
    ctx.tri('memmap/open', 'DataMemmap::new keeps the dimension', same(d['dim'], lambda x: is_param(x, 0)), b.name, show(d['dim']))
    a = call_of(d['data'], 'Mmapf32::map')
    ctx.tri('memmap/open', 'DataMemmap::new maps the file at the path', None if a is None else same(a[0], lambda x: is_call(x, 'OpenOptions::open', 'File::open') and is_param(okdeep(x).a[1][-1], 1)), b.name, show(d['data']))
