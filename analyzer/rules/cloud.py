"""D01-D03: where the points of a cloud live, glued clouds, and the distances, moments and matrices over many points."""
from itertools import product
from rules import prop
from rules.paths import uncond, seqs
from rules.plugins import picked
from algebra import Alg, NoForm
from rulelib import *
import sem

GLUED = 'HashGluedCloud'


class Ints(Sim):
    """cells over whole numbers"""

    def val(self, t):
        t = strip_mut(t)
        if t.op == 'bin' and t.a[0] == 'Div' and self.base(t) is None:
            a, b = self.val(t.a[1]), self.val(t.a[2])
            if isinstance(a, int) and isinstance(b, int):
                if b == 0:
                    raise Unknown(t)
                return a // b
        return Sim.val(self, t)


def is_err(t):
    t = strip_mut(t)
    return t.op == 'residual' or (t.op == 'agg' and t.a[0].split('::')[-1] == 'Err') or t.op == 'err'


def okval(t):
    """what the term carries when it is a success"""
    t = strip_mut(t)
    while t.op in ('ok', 'some', 'payload', 'narrow', 'agg') and t.a:
        if t.op == 'agg':
            if t.a[0].split('::')[-1] not in ('Ok', 'Some'):
                break
            t = strip_mut(t.a[1][0][1])
        else:
            t = strip_mut(t.a[0])
    return t


def region(sim, t, data, n):
    """(start, end) of the slice of data the term denotes, None if it lies outside, when data holds n values"""
    t = strip_mut(t)
    if data(t):
        return (0, n)
    if t.op in ('payload', 'ok', 'some', 'narrow'):
        return region(sim, t.a[0], data, n)
    if t.op in ('getopt', 'index') or (t.op == 'call' and t.a[0].split('::')[-1] in ('get', 'get_unchecked', 'index') and len(t.a[1]) == 2):
        base, ix = (t.a[0], t.a[1]) if t.op != 'call' else t.a[1]
        r = rng(ix)
        b = strip_mut(base)
        if r is None and b.op == 'call' and b.a[0].split('::')[-1] in ('chunks', 'chunks_exact'):
            return piece(sim, b, sim.val(ix), data, n)
        if r is None:
            raise Unknown(t)
        o = region(sim, base, data, n)
        if o is None:
            return None
        k, s, e = r
        s = 0 if s is None else sim.val(s)
        e = o[1] - o[0] if e is None else sim.val(e) + (1 if 'Inclusive' in k else 0)
        if not 0 <= s <= e or o[0] + e > o[1]:
            return None
        return (o[0] + s, o[0] + e)
    if t.op == 'call' and t.a[0].split('::')[-1] == 'nth' and len(t.a[1]) == 2:
        b = strip_mut(t.a[1][0])
        if b.op == 'call' and b.a[0].split('::')[-1] in ('chunks', 'chunks_exact'):
            return piece(sim, b, sim.val(t.a[1][1]), data, n)
    raise Unknown(t)


def piece(sim, b, i, data, n):
    o, c = region(sim, b.a[1][0], data, n), sim.val(b.a[1][1])
    if o is None or c <= 0:
        raise Unknown(b)
    s, e = o[0] + i * c, min(o[0] + i * c + c, o[1])
    if s >= o[1] or (b.a[0].endswith('exact') and e - s < c):
        return None
    return (s, e)


def of_self(t, f):
    """the field f of self, as it is or seen as a slice"""
    t = strip_mut(t)
    if selff(t, f):
        return True
    if t.op == 'call' and t.a[0].split('::')[-1] in ('from_raw_parts', 'as_slice', 'deref', 'as_ref', 'to_vec'):
        return mentions(t, lambda x: selff(x, f))
    return False


DENSE = ('DataRam', 'DataMemmap')


def cell(ctx, evs, n, dim, i=None):
    data = lambda t: of_self(t, 'data')

    def leaf(t):
        if t.op == 'is' or t.op == 'try':
            try:
                r = region(S, t.a[0], data, n)
            except Unknown:
                return None
            good = r is not None
            return good == (t.a[1] in ('Some', 'Ok', 'ok'))
        if selff(t, 'dim') or (t.op == 'call' and t.a[0] == 'PointCloud::dim' and is_param(t.a[1][0], 0)):
            return dim
        if len_of(t) is not None and data(len_of(t)):
            return n
        if t.op == 'call' and t.a[0] == 'PointCloud::len' and is_param(t.a[1][0], 0):
            return n // dim
        if t.op == 'call' and t.a[0].split('::')[-1] == 'is_empty' and data(t.a[1][0]):
            return n == 0
        if i is not None and is_param(t, 1):
            return i
        return None
    S = Ints(evs, leaf)
    S.data = data
    return S


@prop('D01')
def dense_points(ctx):
    """point i is the i-th row of the stored values, or an error"""
    for ty in DENSE:
        b = ctx.body(ty, 'point')
        evs, ret = ctx.events(b), ctx.frame(b).ret()
        for dim, rows, i in product((1, 3, 7), (0, 1, 4), (0, 1, 2, 3, 4, 5, 9)):
            for extra in ((0,) if ty == 'DataRam' or dim == 1 else (0, 2)):
                n = rows * dim + extra
                S = cell(ctx, evs, n, dim, i)
                key = '%s::point(%d) of %d values, dim %d' % (ty, i, n, dim)
                try:
                    v = picked(S, ret)
                    if v is None:
                        raise Unknown(ret)
                    if is_err(v):
                        r = None
                    else:
                        r = region(S, v, S.data, n)
                        if r is None and not (strip_mut(v).op == 'ok'):
                            # the option or result itself is handed on
                            r = None
                        elif r is None:
                            r = 'panic'
                    for e in evs:
                        if e.kind == 'call' and 'panic' in e.name and S.guard(e.guard):
                            r = 'panic'
                except Unknown:
                    ctx.tri('row', key, None, b.name)
                    continue
                want = (dim * i, dim * i + dim) if i < rows else None
                ctx.ob('row', key, r == want, b.name, 'the point read is %s, not %s' % (r or 'an error', want or 'an error'))


@prop('D01')
def dense_sizes(ctx):
    """length, dimension and emptiness are those of the stored rows"""
    for ty in DENSE:
        for meth, want in (('len', lambda r, d: r), ('dim', lambda r, d: d), ('is_empty', lambda r, d: r == 0)):
            b = ctx.body(ty, meth)
            evs, ret = ctx.events(b), ctx.frame(b).ret()
            for dim, rows in product((1, 3, 7), (0, 1, 4)):
                S = cell(ctx, evs, rows * dim, dim)
                key = '%s::%s of %d rows, dim %d' % (ty, meth, rows, dim)
                try:
                    v = S.val(ret)
                except Unknown:
                    ctx.tri('size', key, None, b.name)
                    continue
                ctx.ob('size', key, v == want(rows, dim), b.name, '%s gives %s' % (meth, v))


def counted(ctx, S, t):
    """(first, last + 1) of the numbers the sequence t runs through in order"""
    t = strip_mut(t)
    if t.op == 'agg' and t.a[0] == 'array' and not t.a[1]:
        return (0, 0)
    if t.op == 'mapped':
        v = strip_mut(t.a[1])
        r = rng(t.a[0])
        if r is None:
            raise Unknown(t)
        a, z = S.val(r[1]), S.val(r[2])
        if v.op == 'rangeidx' and strip_mut(v.a[0]) is strip_mut(t.a[0]):
            return (a, z)
        out = []
        for i in range(a, z):
            M = Ints(S.evs, lambda x: i if x.op == 'rangeidx' else S.base(x))
            out.append(M.val(v))
        if out == list(range(out[0], out[0] + len(out))) if out else True:
            return (out[0], out[0] + len(out)) if out else (0, 0)
        return out
    r = rng(t)
    if r is not None and r[0] == 'Range':
        return (S.val(r[1]), S.val(r[2]))
    raise Unknown(t)


@prop('D01')
def dense_indexes(ctx):
    """the indexes and names of a cloud are those of its points, and name and index undo each other"""
    for ty in DENSE:
        for meth in ('reference_indexes', 'names'):
            b = ctx.body(ty, meth)
            evs, m = ctx.nevents(b)
            ret = ctx.frame(b).ret()
            if strip_mut(ret).op == 'new':
                ret = collected(ctx.events(b)).get(strip_mut(ret), ret)
            mixed = [e for e in ctx.events(b) if e.kind == 'call' and e.args and e.name.split('::')[-1] in ('reverse', 'rotate_left', 'rotate_right', 'shuffle', 'pop', 'truncate', 'swap_remove') + (('sort', 'sort_unstable') if meth == 'names' else ())]
            ctx.ob('indexes', '%s::%s left in order' % (ty, meth), not mixed, mixed[0] if mixed else b.name, 'the order is not that of the points')
            for dim, rows in product((1, 3), (0, 1, 4)):
                S = cell(ctx, ctx.events(b), rows * dim, dim)
                key = '%s::%s of %d rows, dim %d' % (ty, meth, rows, dim)
                try:
                    v = counted(ctx, S, ret)
                except Unknown:
                    ctx.tri('indexes', key, None, b.name)
                    continue
                ctx.ob('indexes', key, v == (0, rows), b.name, 'it runs over %s, not 0..%d' % (v, rows))
        b = ctx.body(ty, 'name')
        v = [okval(x) for _, x in alts(ctx.frame(b).ret()) if not is_err(x)]
        spelt = [x for y in v for x in subterms(y) if x.op == 'call' and x.a[0].split('::')[-1] in ('new_lower_hex', 'new_upper_hex', 'new_octal', 'new_binary', 'new_lower_exp', 'new_upper_exp')]
        if spelt:
            ctx.ob('name', ty + '::name', False, b.name, 'the name of a point is not its index: ' + short(v))
        else:
            ctx.tri('name', ty + '::name', all(is_param(x, 1) for x in v) if v and all(lin_only(x) for x in v) else None, b.name, 'the name of a point is not its index: ' + short(v))
        b = ctx.body(ty, 'index')
        v = [okval(x) for _, x in alts(ctx.frame(b).ret()) if not is_err(x)]
        ps = [x for t in v for x in sem.subterms(t) if x.op == 'call' and x.a[0].split('::')[-1] in ('parse', 'from_str', 'from_str_radix')]
        good = bool(v) and all(x in ps for x in v)
        cut = [y for x in ps for y in sem.subterms(x.a[1][0]) if y.op == 'call' and y.a[0].split('::')[-1] in ('trim_start_matches', 'trim_end_matches', 'trim_matches', 'strip_prefix', 'strip_suffix', 'trim_left_matches', 'trim_right_matches', 'to_lowercase', 'split_at', 'index', 'replace')] + \
            [x for x in ps if x.a[0].split('::')[-1] == 'from_str_radix' and intval(x.a[1][1]) not in (10, None)]
        if good and cut:
            good = False if any(y.a[0].split('::')[-1] in ('trim_start_matches', 'trim_left_matches', 'strip_suffix', 'trim_end_matches', 'trim_matches', 'from_str_radix', 'trim_right_matches') for y in cut) else None
        ctx.tri('name', ty + '::index', None if good is None else False if good is False and cut else True if good else False if ps and all(lin_only(x) for x in v) else None, b.name, 'the index of a name is not the number it spells: ' + short(v))


def lin_only(t):
    """built of parameters, constants and arithmetic only"""
    t = strip_mut(t)
    if t.op == 'bin':
        return lin_only(t.a[1]) and lin_only(t.a[2])
    return t.op in ('param', 'const') or (t.op == 'call' and t.a[0].split('::')[-1] in ('parse', 'from_str')) or (t.op in ('payload', 'narrow') and lin_only(t.a[0]))


@prop('D01')
def dense_bare(ctx):
    """points without labels and metadata count as such in summaries"""
    for ty in DENSE:
        for meth in ('label', 'metadata'):
            b = ctx.body(ty, meth)
            vs = [okval(v) for _, v in alts(ctx.frame(b).ret())]
            no = [v.op == 'agg' and v.a[0].split('::')[-1] == 'None' for v in vs]
            ctx.tri('bare', '%s::%s' % (ty, meth), all(no) if no and all(v.op == 'agg' for v in vs) else None, b.name, 'an unlabeled cloud gives ' + short(vs))
        for meth in ('label_summary', 'metasummary'):
            b = ctx.body(ty, meth)
            fr = ctx.frame(b)
            v = okval(fr.ret())
            if v.op != 'agg' or 'nones' not in dict(v.a[1]):
                ctx.undecided('%s::%s: %s' % (ty, meth, short(v)))
                continue
            d = {k: strip_mut(x) for k, x in v.a[1]}
            n = d['nones']
            ok = len_of(n) is not None and strip_mut(len_of(n)) is strip_mut(fr.args[1])
            ctx.tri('bare', '%s::%s nones' % (ty, meth), True if ok else False if mentions(n, lambda x: x.op in ('filtered', 'taken', 'stepby')) or lin_only(n) or len_of(n) is not None else None, b.name, 'of the points asked for it counts as unlabeled ' + short(n))
            ctx.tri('bare', '%s::%s errors' % (ty, meth), True if intval(d['errors']) == 0 else False if lin_only(d['errors']) or len_of(d['errors']) is not None else None, b.name, 'it counts errors: ' + short(d['errors']))


@prop('D01')
def dense_make(ctx):
    """making, merging and copying a cloud keeps the rows"""
    b = ctx.body('DataRam', 'new')
    fr, evs = ctx.frame(b), ctx.events(b)
    vs = [okval(v) for _, v in alts(fr.ret()) if not is_err(v)]
    ok = bool(vs) and all(v.op == 'agg' and is_param(dict(v.a[1]).get('data', v), 0) and is_param(dict(v.a[1]).get('dim', v), 1) for v in vs)
    ctx.tri('make', 'DataRam::new', ok if all(v.op == 'agg' for v in vs) else None, b.name, 'the values or the dimension are not those given: ' + short(vs))
    for n, d in product((0, 3, 4, 6), (1, 2, 3)):
        def leaf(t):
            if len_of(t) is not None and is_param(len_of(t), 0):
                return n
            if is_param(t, 1):
                return d
            return None
        S = Ints(evs, leaf)
        try:
            bad = any(e.kind == 'call' and 'panic' in e.name and S.guard(e.guard) for e in evs) or is_err(picked(S, fr.ret()) or fr.ret())
        except Unknown:
            ctx.tri('make', 'DataRam::new of %d values, dim %d' % (n, d), None)
            continue
        ctx.ob('make', 'DataRam::new of %d values, dim %d' % (n, d), bad == (n % d != 0), b.name, 'rejected' if bad else 'accepted')
    b = ctx.body('DataRam', 'merge')
    evs = ctx.events(b)
    grow = [e for e in evs if e.kind == 'call' and e.args and selff(e.args[0], 'data') and e.name.split('::')[-1] in GROW + SHRINK]
    ws = [e for e in evs if e.kind == 'write' and mentions(e.lval, lambda x: selff(x, 'data') or selff(x, 'dim'))]
    ok = len(grow) == 1 and not ws and grow[0].name.split('::')[-1] in ('extend', 'extend_from_slice', 'append') and isf(grow[0].args[1], 'data') and path(grow[0].args[1])[0] == '$other' if grow else None
    if ok is not None:
        src = strip_mut(grow[0].args[1])
        root = src
        while root.op == 'field':
            root = strip_mut(root.a[0])
        ok = len(grow) == 1 and not ws and grow[0].name.split('::')[-1] in ('extend', 'extend_from_slice', 'append') and root.op == 'param' and is_param(root, 1) and isf(src, 'data')
        if not ok and (len(grow) > 1 or ws or root.op != 'param'):
            theirs = lambda x: x.op == 'field' and isf(x, 'data') and is_param(x.a[0], 1)
            lost = len(grow) == 1 and src.op in ('filtered', 'taken', 'stepby', 'rev', 'mapped') and mentions(src, theirs)
            lost = lost or any(strip_mut(e.args[1]).op in ('filtered', 'rev') and mentions(e.args[1], theirs) for e in grow if len(e.args) > 1)
            # the other's values first
            lost = lost or (any(theirs(strip_mut(w.val)) and not any(a.op in ('empty', 'bin') and mentions(a, lambda x: selff(x, 'data')) and not mentions(a, theirs) for c in w.guard for a in c) for w in ws)
                            and any(e.kind == 'call' and e.name.split('::')[-1] in ('extend', 'extend_from_slice', 'append') and theirs(strip_mut(e.args[0])) and selff(e.args[1], 'data') for e in evs))
            ok = False if lost else None
    ctx.tri('make', 'DataRam::merge appends', ok, b.name, 'the rows of the other cloud are not appended as they are: ' + short(grow))
    if grow:
        for d, o in ((2, 2), (2, 3), (3, 2)):
            leaf = lambda t: d if selff(t, 'dim') else o if isf(t, 'dim') else None
            S = Ints(evs, leaf)
            bad = any(e.kind == 'call' and 'panic' in e.name and S.guard(e.guard) for e in evs)
            skip = S.guard(grow[0].guard) is False
            ctx.ob('make', 'DataRam::merge of dims %d and %d' % (d, o), (bad or skip) == (d != o), b.name, 'clouds of different dimensions are put together' if d != o else 'refused')
    b = ctx.body('DataMemmap', 'convert_to_ram')
    fr, evs = ctx.frame(b), ctx.events(b)
    v = okval(fr.ret())
    if v.op != 'agg':
        ctx.undecided('convert_to_ram')
    else:
        d = {k: strip_mut(x) for k, x in v.a[1]}
        ctx.ob('make', 'convert_to_ram dimension', selff(d.get('dim'), 'dim'), b.name, 'the dimension is ' + short(d.get('dim')))
        ctx.tri('make', 'convert_to_ram values', copied(ctx, evs, d.get('data')), b.name, 'the values are not all copied in order: ' + short(d.get('data')))
    for ty in DENSE:
        b = ctx.body(ty, 'convert_to_labels')
        fr, evs = ctx.frame(b, ('VecLabels::new',)), ctx.events(b, ('VecLabels::new',))
        v = okval(fr.ret())
        if not is_call(v, 'VecLabels::new'):
            ctx.undecided(ty + '::convert_to_labels')
            continue
        a = v.a[1]
        ctx.ob('make', ty + '::convert_to_labels dimension', selff(a[1], 'dim'), b.name, 'the dimension is ' + short(a[1]))
        ctx.tri('make', ty + '::convert_to_labels values', copied(ctx, evs, a[0]), b.name, 'the values are not all kept in order: ' + short(a[0]))
        ctx.ob('make', ty + '::convert_to_labels mask', strip_mut(a[2]).op == 'agg' and strip_mut(a[2]).a[0].split('::')[-1] == 'None', b.name, 'the labels get a mask: ' + short(a[2]))


def copied(ctx, evs, t):
    """t holds exactly self.data in order"""
    t = strip_mut(t)
    if of_self(t, 'data'):
        return True
    if t.op == 'new':
        g = [e for e in evs if e.kind == 'call' and e.args and strip_mut(e.args[0]) is t and e.name.split('::')[-1] in GROW + SHRINK + ('truncate', 'reverse', 'sort', 'swap', 'dedup')]
        if len(g) == 1 and uncond(g[0]) and not seqs(g[0].guard) and g[0].name.split('::')[-1] in ('extend', 'extend_from_slice', 'append'):
            return copied(ctx, evs, g[0].args[1])
        return None
    if t.op == 'mapped' and of_self(t.a[0], 'data'):
        return strip_mut(t.a[1]) is sem.elem(strip_mut(t.a[0])) or None
    if t.op in ('taken', 'stepby', 'rev', 'filtered') and mentions(t, lambda x: of_self(x, 'data')):
        return False
    if t.op == 'index' and rng(t.a[1]) is not None:
        return None
    return None


# ---- D02: glued clouds -----------------------------------------------------------------

def lookup(t):
    """key term if t is the address found under a key of self.addresses"""
    t = strip_mut(t)
    while t.op in ('payload', 'some', 'ok', 'narrow'):
        t = strip_mut(t.a[0])
    if t.op in ('getopt', 'index') and selff(t.a[0], 'addresses'):
        return t.a[1]
    if t.op == 'call' and t.a[0].split('::')[-1] in ('get', 'index') and len(t.a[1]) == 2 and selff(t.a[1][0], 'addresses'):
        return t.a[1][1]
    return None


def glued_leaf(has):
    def leaf(t):
        if t.op == 'try' and strip_mut(t.a[0]).op == 'phi':
            live = [v for g, v in alts(t.a[0]) if Sim([], leaf).guard(g) is not False]
            errs = {is_err(v) for v in live}
            return (t.a[1] == 'err') == errs.pop() if len(errs) == 1 else None
        if t.op in ('is', 'try'):
            if lookup(t.a[0]) is not None and not (t.a[0].op == 'call' and t.a[0].a[0].startswith('PointCloud')):
                return has == (t.a[1] in ('Some', 'Ok', 'ok'))
            if mentions(t.a[0], lambda x: lookup(x) is not None) and strip_mut(t.a[0]).op in ('ok', 'optmap', 'residual', 'okor') and not mentions(t.a[0], lambda x: x.op == 'call' and x.a[0].startswith('PointCloud::')):
                return has == (t.a[1] in ('Some', 'Ok', 'ok'))
        if t.op == 'call' and t.a[0].split('::')[-1] == 'contains_key' and selff(t.a[1][0], 'addresses'):
            return has
        return None
    return leaf


def source_of(t):
    """address term A if t is self.data_sources[A.0]"""
    t = strip_mut(t)
    while t.op in ('payload', 'some', 'ok'):
        t = strip_mut(t.a[0])
    if t.op in ('index', 'getopt') and selff(t.a[0], 'data_sources'):
        ix = strip_mut(t.a[1])
        if ix.op == 'field':
            return ix
    return None


def through(t, meth, is_key):
    """True/False/None: t is data_sources[a].meth(b) for the address (a, b) of the key"""
    t = strip_mut(t)
    if not is_call(t, 'PointCloud::' + meth):
        return None
    s = source_of(t.a[1][0])
    j = strip_mut(t.a[1][1])
    if s is None:
        src = okval(t.a[1][0])
        if src.op in ('index', 'getopt') and selff(src.a[0], 'data_sources') and lin_only(src.a[1]):
            return False
    if s is None or j.op != 'field':
        return False if lin_only(j) or is_key(j) else None
    k1, k2 = lookup(s.a[0]), lookup(j.a[0])
    if k1 is None or k2 is None:
        return None
    return s.a[1] == '0' and j.a[1] == '1' and is_key(k1) and is_key(k2)


@prop('D02')
def glued_access(ctx):
    """everything about a point is asked of the source its address names"""
    for meth in ('point', 'label', 'name', 'metadata'):
        b = ctx.body(GLUED, meth)
        fr, evs = ctx.frame(b), ctx.events(b)
        for has in (True, False):
            S = Sim(evs, glued_leaf(has))
            live = [strip_mut(v) for g, v in alts(strip_mut(fr.ret())) if S.guard(g) is not False]
            key = '%s of %s index' % (meth, 'a known' if has else 'an unknown')
            good = [v for v in live if not is_err(v)]
            if has:
                rs = [through(v, meth, lambda k: is_param(k, 1)) for v in good]
                ctx.tri('address', key, False if False in rs else True if rs and all(rs) else None, b.name, '%s of a point is not that of its address: %s' % (meth, short(good)))
            else:
                pan = any(e.kind == 'call' and 'panic' in e.name and S.guard(e.guard) for e in evs)
                sure = good and not len(good) < len(live)
                handed = good and all(not strip_mut(v).op == 'call' for v in good)
                ctx.tri('address', key, False if pan or (sure and not handed) else None if sure else True, b.name, 'no error for an unknown index: ' + short(good))


@prop('D02')
def glued_summaries(ctx):
    """a summary covers every index asked for once"""
    for meth, get in (('label_summary', 'label'), ('metasummary', 'metadata')):
        b = ctx.body(GLUED, meth)
        OP = ('SummaryCounter::add', 'SummaryCounter::combine')
        fr, evs = ctx.frame(b, OP), ctx.events(b, OP)
        add = calls(evs, 'SummaryCounter::add')
        oth = calls(evs, 'SummaryCounter::combine')
        if len(add) != 1 or oth:
            ctx.undecided(meth + ': ' + short(add + oth))
            continue
        e = add[0]
        pns = fr.args[1]
        r = through(e.args[1], get, lambda k: is_elem(k, lambda s: strip_mut(s) is strip_mut(pns)))
        ctx.tri('summary', meth + ' value', r, e, 'what is added is not the %s of the point: %s' % (get, short(e.args[1])))
        sq = seqs(e.guard)
        extra = [a for c in strip_noise(e.guard) for a in c if not loopish(a) and not (a.op == 'is' and lookup(a.a[0]) is not None)]
        ok = len(sq) == 1 and strip_mut(sq[0]) is strip_mut(pns) and not extra
        ctx.tri('summary', meth + ' every point', ok if ok or any(strip_mut(s).op in ('filtered', 'taken', 'stepby') for s in sq) or extra else None, e, 'not every index is added once: ' + short(sq + extra))
        vs = [okval(v) for _, v in alts(fr.ret()) if not is_err(v)]
        ctx.tri('summary', meth + ' result', True if vs and all(v is strip_mut(e.args[0]) for v in vs) else None, b.name)
        un = [x for x in (True, False) if False]
        # an unknown index is an error
        rs = [v for _, v in alts(fr.ret()) if is_err(v)]
        silent = any(a.op == 'is' and lookup(a.a[0]) is not None and a.a[1] in ('Some', 'Ok') for a in must_atoms(e.guard)) or \
            any(a.op == 'is' and a.a[1] in ('Some', 'Ok') and mentions(a.a[0], lambda x: lookup(x) is not None) for a in must_atoms(e.guard))
        if not rs and all(strip_mut(v).op == 'ok' for _, v in alts(fr.ret())) and not any(e.kind == 'call' and 'panic' in e.name for e in evs):
            silent = True
        ctx.tri('summary', meth + ' unknown index', True if rs else False if silent else None, b.name, 'an unknown index is left out without an error')


def closed(t, src, j):
    """t is arithmetic on the number of a source, its length and the place in it"""
    t = strip_mut(t)
    if t is j or intval(t) is not None or (t.op in ('idx', 'rangeidx') and mentions(t.a[0], lambda x: x is src) and not mentions(t.a[0], lambda x: x is sem.elem(src))):
        return True
    if (is_call(t, 'PointCloud::len') and strip_mut(strip(t).a[1][0]) is sem.elem(src)) or (len_of(t) is not None and strip_mut(len_of(t)) is src):
        return True
    if of_first(t, src):
        return True
    return t.op == 'bin' and t.a[0] in ('Add', 'Sub', 'Mul', 'Div', 'Rem') and all(closed(x, src, j) for x in t.a[1:])


def of_first(t, src):
    """the length of the first source, 0 without one"""
    al = [strip_mut(x) for _, x in alts(t)] if t.op == 'phi' else [t]
    ls = [x for x in al if is_call(x, 'PointCloud::len') and (lambda y: y.op == 'call' and y.a[0].split('::')[-1] in ('first', 'index') and strip_mut(y.a[1][0]) is src and (len(y.a[1]) == 1 or intval(y.a[1][1]) == 0))(strip_mut(okval(strip(x).a[1][0])))]
    return len(ls) == 1 and all(x is ls[0] or intval(x) == 0 for x in al)


def at_place(t, lens, i, c, src, j):
    t = strip_mut(t)
    if t is j:
        return c
    if intval(t) is not None:
        return intval(t)
    if t.op in ('idx', 'rangeidx'):
        return i
    if of_first(t, src):
        return lens[0]
    if t.op == 'bin':
        a, b = (at_place(x, lens, i, c, src, j) for x in t.a[1:])
        if a is None or b is None or (t.a[0] in ('Div', 'Rem') and not b):
            return None
        return {'Add': a + b, 'Sub': a - b, 'Mul': a * b, 'Div': a // b if b else 0, 'Rem': a % b if b else 0}[t.a[0]]
    if len_of(t) is not None and strip_mut(len_of(t)) is src:
        return len(lens)
    return lens[i]


@prop('D02')
def glued_new(ctx):
    """the sources' points are numbered consecutively, in order"""
    b = ctx.body(GLUED, 'new')
    fr, evs = ctx.frame(b), ctx.events(b)
    v = okval(fr.ret())
    if v.op != 'agg':
        ctx.undecided('HashGluedCloud::new')
        return
    d = {k: strip_mut(x) for k, x in v.a[1]}
    src = strip_mut(fr.args[0])
    ctx.ob('number', 'sources kept', d['data_sources'] is src, b.name, 'the sources are not kept as given: ' + short(d['data_sources']))
    ins = [e for e in evs if e.kind == 'call' and e.name.split('::')[-1] == 'insert' and strip_mut(e.args[0]) is d['addresses']]
    if len(ins) != 1:
        ctx.undecided('HashGluedCloud::new: inserts ' + short(ins))
        return
    e = ins[0]
    val = strip_mut(e.args[2])
    if val.op != 'agg' or len(val.a[1]) != 2:
        ctx.undecided('HashGluedCloud::new: ' + short(val))
        return
    i, j = (strip_mut(x) for _, x in val.a[1])
    sq = seqs(e.guard)
    ctx.tri('number', 'source', True if i.op == 'idx' and strip_mut(i.a[0]) is src else False if i.op in ('idx', 'rangeidx', 'bin', 'const', 'phi') else None, e, 'the address does not name the source: ' + short(i))
    inner = lambda s: mentions(s, lambda x: x is sem.elem(src))

    def starts0(s):
        s = strip_mut(s)
        if s.op == 'enumerate':
            return starts0(s.a[0])
        if s is sem.elem(src):
            return True
        r = rng(s)
        if r is None:
            return None
        n = strip_mut(r[2])
        full = is_call(n, 'PointCloud::len') or (len_of(n) is not None)
        return r[0] == 'Range' and intval(r[1]) == 0 and full and mentions(n, lambda x: x is sem.elem(src))
    jj = j.op in ('idx', 'rangeidx') and inner(j.a[0]) and starts0(j.a[0])
    ctx.tri('number', 'place in the source', True if jj else False if j.op in ('idx', 'rangeidx', 'bin', 'const', 'phi') else None, e, 'the address does not name the place in the source: ' + short(j))
    extra = [a for c in e.guard for a in c if not loopish(a)]
    bad = [s for s in sq if mentions(s, lambda x: x.op in ('filtered', 'taken', 'stepby'))]
    ctx.ob('number', 'every point', not extra and not bad, e, 'not every point is numbered: ' + short(extra + bad))
    k = strip_mut(e.args[1])
    r = None
    if len_of(k) is not None and strip_mut(len_of(k)) is d['addresses']:
        r = True
    elif k.op == 'phi':
        # counter: 0, then one more per insertion
        vs = [strip_mut(x) for _, x in alts(k)]
        recs = [x for x in vs if x.op == 'rec']
        init = [x for x in vs if x.op != 'rec']
        sets = [w for w in evs if w.kind == 'set' and recs and w.lval.op == 'var' and (w.lval.a[0], w.lval.a[1]) == (recs[0].a[0], recs[0].a[1])]
        steps = [w for w in sets if mentions(w.val, lambda x: x.op == 'rec')]
        start = [w for w in sets if w not in steps]
        if len(recs) == 1 and len(steps) == 1 and init and all(lin_only(x) for x in init):
            w = steps[0]
            l = lin(w.val)
            one = l[1] == 1 and len(l[0]) == 1 and list(l[0].values()) == [1]
            same = w.guard == e.guard
            r = all(intval(x) == 0 for x in init) and one and same and event_may_precede(e, w)
            if r and len([w for w in start if intval(w.val) != 0]):
                r = False
            if any(w for w in start if seqs(w.guard)):
                r = False
    elif k.op == 'bin' and k.a[0] == 'Add' and any(strip_mut(x) is j for x in k.a[1:]):
        # offset of the source plus the place in it
        off = [strip_mut(x) for x in k.a[1:] if strip_mut(x) is not j]
        if len(off) == 1 and off[0].op == 'phi':
            vs = [strip_mut(x) for _, x in alts(off[0])]
            recs = [x for x in vs if x.op == 'rec']
            init = [x for x in vs if x.op != 'rec']
            sets = [w for w in evs if w.kind == 'set' and recs and w.lval.op == 'var' and (w.lval.a[0], w.lval.a[1]) == (recs[0].a[0], recs[0].a[1])]
            steps = [w for w in sets if mentions(w.val, lambda x: x.op == 'rec')]
            if len(recs) == 1 and len(steps) == 1 and init and all(intval(x) is not None for x in init):
                l = lin(steps[0].val)
                add = [x for x in l[0] if not mentions(x, lambda y: y.op == 'rec')]
                if l[1] == 0 and len(add) == 1 and all(c == 1 for c in l[0].values()) and is_call(add[0], 'PointCloud::len'):
                    r = strip_mut(add[0].a[1][0]) is sem.elem(src) and all(intval(x) == 0 for x in init) and len(seqs(steps[0].guard)) == 1
                elif not add:
                    r = False
    if r is None and closed(k, src, j):
        r = all(at_place(k, lens, a, c, src, j) == sum(lens[:a]) + c for lens in ((3, 1, 4), (1, 2, 0, 3), (2, 2, 2)) for a in range(len(lens)) for c in range(lens[a]))
    elif r is None and lin_only(k) and k.op not in ('idx', 'rangeidx'):
        r = False
    elif r is None and k.op == 'bin' and k.a[0] in ('Add', 'Mul') and lin(k)[1] != 0:
        r = None
    ctx.tri('number', 'consecutive', r, e, 'points are not numbered 0, 1, 2, ... over all the sources: ' + short(k))


@prop('D02')
def glued_reindex(ctx):
    """reindexing moves every address from its old index to its new one, or changes nothing"""
    b = ctx.body(GLUED, 'reindex')
    fr, evs = ctx.frame(b), ctx.events(b)
    prs = strip_mut(fr.args[1])
    ws = writes(evs, 'addresses') or [e for e in evs if e.kind == 'call' and e.name.endswith('mem::swap') and any(selff(a, 'addresses') for a in e.args)]
    ins = [e for e in evs if e.kind == 'call' and e.name.split('::')[-1] == 'insert' and len(e.args) == 3]
    made = [e for e in ins if not mentions(e.args[2], lambda x: lookup(x) is not None) and (lin_only(e.args[2]) or (strip_mut(e.args[2]).op == 'agg' and all(lin_only(x) for _, x in strip_mut(e.args[2]).a[1])))]
    ctx.ob('reindex', 'no address made up', not made, made[0] if made else b.name, 'an address is not one of the old ones: ' + short(made))
    onself = [e for e in evs if e.kind == 'call' and e.args and any(selff(a, 'addresses') for a in e.args)]
    adds = [e for e in onself if e.name.split('::')[-1] in ('insert', 'extend') and selff(e.args[0], 'addresses')]
    frees = [e for e in onself if e.name.split('::')[-1] in ('remove', 'remove_entry', 'clear', 'drain', 'retain', 'take', 'replace', 'swap', 'get_mut', 'iter_mut', 'values_mut', 'entry', 'reindex')]
    other = [e for e in onself if e not in adds and e.name.split('::')[-1] not in ('get', 'len', 'is_empty', 'contains_key', 'iter', 'keys', 'values', 'index', 'reserve', 'capacity', 'copied', 'cloned')]
    if adds and not frees and not other and not ws:
        ctx.ob('reindex', 'old addresses', False, adds[0], 'the old indexes keep their addresses')
        return
    if len(ws) != 1 or len(ins) != 1:
        if any(e.kind == 'call' and e.args and selff(e.args[0], 'addresses') and e.name.split('::')[-1] in ('remove', 'insert', 'remove_entry') for e in evs):
            ctx.undecided('reindex works in place')
        else:
            ctx.undecided('reindex: ' + short(ws + ins))
        return
    w, e = ws[0], ins[0]
    if selff(e.args[0], 'addresses'):
        ctx.ob('reindex', 'old addresses', False, e, 'an address is put in the map it is still read from')
        return
    m = strip_mut(e.args[0])
    if w.kind == 'write':
        ctx.tri('reindex', 'result', strip_mut(w.val) is m or None, w)
    f = lambda t, n: strip_mut(t).op == 'field' and strip_mut(t).a[1] == n and is_elem(strip_mut(t).a[0], lambda s: strip_mut(s) is prs)
    k, v = e.args[1], lookup(e.args[2])
    ctx.tri('reindex', 'new index', True if f(k, '1') else False if f(k, '0') else None, e, 'the new index is ' + short(k))
    ctx.tri('reindex', 'old index', (True if f(v, '0') else False if f(v, '1') else None) if v is not None else None, e, 'the address moved is that of ' + short(v))
    done = [a for a in must_atoms(w.guard) if a.op == 'done']
    late = event_after(w, [e])
    ctx.tri('reindex', 'all or nothing', True if late else False if seqs(w.guard) else None, w, 'the addresses are replaced before every one is found')
    extra = [a for c in strip_noise(e.guard) for a in c if not loopish(a) and not (a.op == 'is' and lookup(a.a[0]) is not None)]
    sq = seqs(e.guard)
    bad = [s for s in sq if strip_mut(s) is not prs]
    ctx.tri('reindex', 'every pair', True if not extra and not bad else False if extra or any(mentions(s, lambda x: x.op in ('filtered', 'taken', 'stepby')) for s in bad) else None, e, 'a pair is left out: ' + short(extra + bad))
    S = Sim(evs, lambda t: True if t.op == 'each' else glued_leaf(False)(t))
    errs = [v for g, v in alts(fr.ret()) if is_err(v)]
    ctx.ob('reindex', 'unknown index', bool(errs), b.name, 'no error for an unknown index')
    for n, o in ((2, 2), (2, 3), (3, 2)):
        def leaf(t):
            if len_of(t) is not None:
                x = len_of(t)
                return n if strip_mut(x) is prs else o if selff(x, 'addresses') else None
            return None
        S = Sim(evs, leaf)
        pan = [S.guard(x.guard) for x in evs if x.kind == 'call' and 'panic' in x.name]
        if any(x is None for x in pan):
            ctx.tri('reindex', '%d pairs for %d points' % (n, o), None)
            continue
        runs = S.guard(frozenset(frozenset(a for a in c if not loopish(a) and a.op not in ('is', 'try')) for c in w.guard))
        ctx.tri('reindex', '%d pairs for %d points' % (n, o), None if runs is None else (any(pan) or not runs) == (n != o), b.name, 'points lose their address' if n != o else 'refused')


@prop('D02')
def glued_sizes(ctx):
    """length, dimension, emptiness, indexes and names are those of all the sources"""
    b = ctx.body(GLUED, 'len')
    fr, evs = ctx.frame(b), ctx.events(b)
    src = [s for s in (x for e in evs for x in seqs(e.guard))]
    ds = None
    for t in sem.subterms(fr.ret()):
        if t.op == 'field' and selff(t, 'data_sources'):
            ds = t
    r = None
    if len_of(fr.ret()) is not None and selff(len_of(fr.ret()), 'addresses'):
        r = True
    elif ds is not None:
        A = Alg(evs)
        try:
            want = A.sum(ds, A.poly(mk('call', 'PointCloud::len', (sem.elem(ds),))))
            r = A.eq(fr.ret(), want)
        except NoForm:
            r = None
        rt = strip_mut(fr.ret())
        if r is not True and rt.op == 'phi' and any(strip_mut(x).op == 'bin' and strip_mut(x).a[0] in ('Max', 'Min', 'Mul') for _, x in alts(rt)):
            r = False
    elif lin_only(fr.ret()):
        r = False
    ctx.tri('sizes', 'len', r, b.name, 'the length is not the sum of those of the sources: ' + short(fr.ret()))
    b = ctx.body(GLUED, 'is_empty')
    fr, evs = ctx.frame(b), ctx.events(b)
    for n, ln in ((0, 0), (1, 0), (1, 3)):
        def leaf(t):
            if t.op == 'each' and selff(t.a[0], 'data_sources'):
                return n > 0
            if t.op in ('empty', 'nonempty') and is_elem(t.a[0], lambda s: selff(s, 'data_sources')):
                return (ln == 0) == (t.op == 'empty')
            if t.op in ('empty', 'nonempty') and selff(t.a[0], 'data_sources'):
                return (n == 0) == (t.op == 'empty')
            if t.op in ('empty', 'nonempty') and selff(t.a[0], 'addresses'):
                return (ln == 0) == (t.op == 'empty')
            if t.op == 'phi' and mentions(t, lambda x: x.op == 'rec') and mentions(t, lambda x: x.op == 'call' and x.a[0] == 'PointCloud::len'):
                A = Alg(evs)
                sd = [x for x in sem.subterms(t) if x.op == 'field' and selff(x, 'data_sources')]
                try:
                    if sd and A.eq(t, A.sum(sd[0], A.poly(mk('call', 'PointCloud::len', (sem.elem(sd[0]),))))):
                        return ln
                except NoForm:
                    pass
                raise Unknown(t)
            x = len_of(t)
            if x is not None and selff(x, 'data_sources'):
                return n
            if x is not None and selff(x, 'addresses'):
                return ln
            if t.op == 'call' and t.a[0] == 'PointCloud::is_empty' and is_elem(t.a[1][0], lambda s: selff(s, 'data_sources')):
                return ln == 0
            if t.op == 'call' and t.a[0] == 'PointCloud::len':
                return ln
            if t.op == 'call' and t.a[0].split('::')[-1] == 'is_empty' and selff(t.a[1][0], 'data_sources'):
                return n == 0
            if t.op == 'call' and t.a[0].split('::')[-1] == 'is_empty' and selff(t.a[1][0], 'addresses'):
                return ln == 0
            return None
        S = Sim(evs, leaf)
        key = 'is_empty of %d sources of %d points' % (n, ln)
        read = [x for x in sem.subterms(fr.ret()) if x.op == 'call' and x.a[0] in ('PointCloud::is_empty', 'PointCloud::len')] + [x for e in evs for c in e.guard for a in c for x in sem.subterms(a) if x.op == 'call' and x.a[0] in ('PointCloud::is_empty', 'PointCloud::len')]
        one = lambda x: (lambda y: y.op == 'call' and y.a[0].split('::')[-1] in ('first', 'last', 'get', 'index') and selff(y.a[1][0], 'data_sources') and (len(y.a[1]) == 1 or intval(y.a[1][1]) is not None))(strip_mut(okval(x.a[1][0])))
        if read and all(one(x) for x in read) and not any(selff(x, 'addresses') for x in sem.subterms(fr.ret())) and not any(seqs(e.guard) for e in evs):
            ctx.ob('sizes', key, False, b.name, 'only one of the sources is asked')
            continue
        try:
            v = S.val(fr.ret())
        except Unknown:
            ctx.tri('sizes', key, None, b.name)
            continue
        ctx.ob('sizes', key, v == (ln == 0), b.name, 'is_empty gives %s' % v)
    b = ctx.body(GLUED, 'dim')
    r = strip_mut(ctx.frame(b).ret())
    ctx.tri('sizes', 'dim', True if is_call(r, 'PointCloud::dim') and mentions(r, lambda x: selff(x, 'data_sources')) else False if lin_only(r) or is_call(r, 'PointCloud::len') else None, b.name, 'the dimension is ' + short(r))
    b = ctx.body(GLUED, 'reference_indexes')
    r = strip_mut(ctx.frame(b).ret())
    if r.op == 'new':
        r = strip_mut(collected(ctx.events(b)).get(r, r))
    k = None
    if is_call(r, 'HashMap::keys') and selff(r.a[1][0], 'addresses'):
        k = True
    elif r.op == 'mapped':
        s, v = strip_mut(r.a[0]), strip_mut(r.a[1])
        if is_call(s, 'HashMap::keys') and selff(s.a[1][0], 'addresses'):
            k = v is sem.elem(s)
        elif selff(s, 'addresses') and v.op == 'field':
            k = v.a[1] == '0'
        elif lin_only(v) or (rng(s) is not None and v.op == 'rangeidx'):
            k = False
    elif is_call(r, 'HashMap::values') or r.op in ('taken', 'stepby', 'filtered') or rng(r) is not None:
        k = False
    ctx.tri('sizes', 'reference_indexes', k, b.name, 'the indexes are not those of the addresses: ' + short(r))


@prop('D02')
def glued_names(ctx):
    """the index of a name is an index of the glued cloud"""
    b = ctx.body(GLUED, 'names')
    r = strip_mut(ctx.frame(b).ret())
    if r.op == 'new':
        r = strip_mut(collected(ctx.events(b)).get(r, r))
    nm = [x for x in sem.subterms(r) if x.op == 'call' and is_call(x, 'PointCloud::name')]
    ok = None
    for x in nm:
        s, j = source_of(x.a[1][0]), strip_mut(x.a[1][1])
        if s is not None and j.op == 'field':
            base = strip_mut(s.a[0])
            ok = s.a[1] == '0' and j.a[1] == '1' and base is strip_mut(j.a[0])
            if base.op == 'field' and ok:
                ok = base.a[1] == '1'
    ctx.tri('names', 'names', ok, b.name, 'the names are not those of the addresses: ' + short(nm))
    b = ctx.body(GLUED, 'index')
    fr, evs = ctx.frame(b), ctx.events(b)
    good = bad = unk = 0
    for g, v in alts(fr.ret()):
        if is_err(v):
            continue
        v = okval(v)
        if v.op == 'field' and is_elem(v.a[0], lambda s: selff(s, 'addresses')):
            if v.a[1] == '0':
                good += 1
                at = strip_mut(v.a[0])
                near = [a for c in g for a in c if any(x.op == 'bin' and x.a[0] in ('Lt', 'Le', 'Gt', 'Ge') and mentions(x, lambda y: y.op == 'field' and strip_mut(y.a[0]) is at) for x in sem.subterms(a))]
                ctx.ob('names', 'index by both parts of the address', not near, b.name, 'an address only near the one named is taken: ' + short(near))
            else:
                bad += 1
        elif is_call(v, 'PointCloud::index') or (v.op in ('field', 'bin', 'idx')):
            bad += 1
        else:
            unk += 1
    ctx.tri('names', 'index', False if bad else None if unk or not good else True, b.name, 'the index of a name is not an index of the glued cloud')
    eq = [x for e in evs for x in ([e] if e.kind == 'call' and e.name == 'PartialEq::eq' else [])]
    for e in eq:
        a, c = (strip_mut(x) for x in e.args[:2])
        if not (a.op == 'field' and is_elem(a.a[0], lambda s: selff(s, 'addresses'))):
            a, c = c, a
        if a.op == 'field' and c.op == 'agg' and len(c.a[1]) == 2:
            i, j = (strip_mut(x) for _, x in c.a[1])
            r = a.a[1] == '1' and i.op == 'idx' and selff(i.a[0], 'data_sources') and is_call(okval(j), 'PointCloud::index')
            ctx.tri('names', 'index by address', True if r else None, e)


# ---- D03: distances, moments, matrices --------------------------------------------------

CLOUD = 'PointCloud'


def dist_of(t, x, ix):
    """True/False/None: t is the distance between x and the point of index ix(term)"""
    t = okval(t)
    if t.op == 'optmap':
        t = strip_mut(t.a[1])
    if not is_call(t, 'Metric::dist'):
        return None
    a, c = (okval(y) for y in t.a[1])
    if not is_param(a, 1):
        a, c = c, a
    if not is_param(a, 1):
        return False
    if not is_call(c, 'PointCloud::point') or not is_param(c.a[1][0], 0):
        return None
    return ix(c.a[1][1])


def chunked(t):
    """(sequence, chunk size term) if t walks the chunks of a sequence"""
    t = strip_mut(t)
    if t.op == 'call' and t.a[0].split('::')[-1] in ('par_chunks', 'par_chunks_mut', 'chunks', 'chunks_mut', 'par_chunks_exact', 'par_chunks_exact_mut', 'chunks_exact', 'chunks_exact_mut'):
        return strip_mut(t.a[1][0]), t.a[1][1], t.a[0].split('::')[-1]
    return None


def position(t):
    """(sequence, loops) of an element: elem(indexes) or elem(elem(chunks(indexes)))"""
    t = strip_mut(t)
    if t.op != 'elem':
        return None
    s = strip_mut(t.a[0])
    if s.op == 'elem' and chunked(s.a[0]):
        q, c, how = chunked(s.a[0])
        return q, (how, c), strip_mut(s.a[0])
    return s, None, s


@prop('D03')
def distances(ctx):
    """the k-th distance is that to the k-th index, parallel or not, and every error is reported"""
    b = ctx.body(CLOUD, 'distances_to_point')
    fr, evs = ctx.frame(b), ctx.events(b)
    idx = strip_mut(fr.args[2])

    def plain(t):
        p = position(t)
        return None if p is None else p[0] is idx and p[1] is None
    seen = 0
    for g, v in alts(fr.ret()):
        if is_err(v):
            continue
        v = okval(v)
        if v.op == 'new':
            v = strip_mut(collected(evs).get(v, v))
        if v.op in ('mapped', 'filtered', 'taken', 'stepby', 'rev', 'chain'):
            seen += 1
            if v.op != 'mapped' or strip_mut(v.a[0]) is not idx:
                bad = mentions(v, lambda x: x.op in ('filtered', 'taken', 'stepby', 'rev')) and mentions(v, lambda x: x is idx)
                ctx.tri('serial', 'every index', False if bad else None, b.name, 'the distances are not one per index in order: ' + short(v))
                continue
            ctx.ob('serial', 'every index', True, b.name)
            al = [x for _, x in alts(v.a[1])]
            rs = [dist_of(x, None, plain) for x in al if not is_err(x)]
            ctx.tri('serial', 'distance', None if not rs or None in rs else all(rs), b.name, 'the distance to an index is ' + short(v.a[1]))
            # an error becomes the result
            pt = [x for x in al if is_err(x)] or strip_mut(v.a[1]).op in ('optmap',) or [x for x in al if is_call(okval(x), 'PointCloud::point')]
            ctx.tri('serial', 'error', bool(pt) or None, b.name)
        elif v.op == 'call' and v.a[0].endswith('from_elem'):
            seen += 1
            n = v.a[1][1]
            ctx.tri('parallel', 'one slot per index', (len_of(n) is not None and strip_mut(len_of(n)) is idx) or None, b.name)
            ws = [e for e in evs if e.kind == 'write' and position(e.lval) and position(e.lval)[0] is v and not must_fail(e)]
            if len(ws) != 1:
                ctx.tri('parallel', 'slots', False if not ws and not any(e.kind == 'write' and mentions(e.lval, lambda x: x is v) for e in evs) else None, b.name, 'the distances are never stored')
                continue
            w = ws[0]
            to = position(w.lval)

            def frm(t):
                p = position(t)
                if p is None:
                    return None
                if p[0] is not idx:
                    return False
                if (p[1] is None) != (to[1] is None):
                    return None
                return True
            ctx.tri('parallel', 'distance', dist_of(w.val, None, frm), w, 'the distance stored is ' + short(w.val))
            # the slot and the index are at the same place
            pts = [x for x in sem.subterms(w.val) if x.op == 'call' and is_call(x, 'PointCloud::point')]
            fp = position(pts[0].a[1][1]) if pts else None
            if fp and to[1] and fp[1]:
                ctx.tri('parallel', 'same chunks', same_chunk(to[1], fp[1]), w, 'the chunks of slots and of indexes differ: %s, %s' % (short(to[1][1]), short(fp[1][1])))
                whole = not any('exact' in h for h in (to[1][0], fp[1][0]))
                ctx.ob('parallel', 'every chunk', whole, w, 'the last chunk is left out')
                zs = seqs(w.guard)
                z1 = [s for s in zs if strip_mut(s).op == 'zip' and {strip_mut(x) for x in strip_mut(s).a[:2]} == {to[2], fp[2]}]
                z2 = [s for s in zs if strip_mut(s).op == 'zip' and {strip_mut(x) for x in strip_mut(s).a[:2]} == {sem.elem(to[2]), sem.elem(fp[2])}]
                shifted = [s for s in zs if mentions(s, lambda x: x.op in ('rev', 'taken', 'stepby', 'filtered'))]
                ctx.tri('parallel', 'same places', True if z1 and z2 else False if shifted else None, w, 'slots and indexes are not walked together: ' + short(zs))
                for dim in (1, 2, 3, 784, 3000, 150000, 300000, 300001, 10 ** 7):
                    S = Ints(evs, lambda t: dim if is_call(t, 'PointCloud::dim') else None)
                    try:
                        c = S.val(to[1][1])
                    except Unknown:
                        ctx.tri('parallel', 'chunk for dim %d' % dim, None, w)
                        continue
                    ctx.ob('parallel', 'chunk for dim %d' % dim, c >= 1, w, 'the chunks are empty: rayon panics')
            extra = [a for c in w.guard for a in c if not loopish(a) and not (a.op == 'is' and mentions(a.a[0], lambda x: is_call(x, 'PointCloud::point'))) and mentions(a, lambda x: x.op in ('elem', 'idx', 'rangeidx'))]
            ctx.ob('parallel', 'every slot', not extra, w, 'some slots are not written: ' + short(extra))
            # the error: recorded where the point cannot be read, and returned
            rec = [e for e in evs if e.kind in ('write', 'set', 'call') and e is not w and must_fail(e)]
            rets = [x for _, x in alts(fr.ret()) if is_err(x) and mentions(x, lambda y: is_call(y, 'into_inner', 'Mutex::into_inner') or (y.op == 'call' and y.a[0].split('::')[-1] in ('lock', 'into_inner', 'recv', 'try_recv', 'take')))]
            stored = [e for e in rec if (e.kind == 'write' and not mentions(e.lval, lambda x: x is v) and not (strip_mut(e.val).op == 'ok' or (strip_mut(e.val).op == 'agg' and strip_mut(e.val).a[0].split('::')[-1] in ('Ok', 'None')))) or (e.kind == 'call' and e.name.split('::')[-1] in ('send', 'push', 'insert', 'replace', 'get_or_insert'))]
            ctx.ob('parallel', 'error', bool(stored), w, 'an index that cannot be read is not recorded as an error')
            cells = [strip_mut(e.lval) for e in stored if e.kind == 'write']
            good = [e for e in evs if e.kind == 'write' and e is not w and any(strip_mut(e.lval) is c for c in cells) and seqs(e.guard)
                    and (strip_mut(e.val).op == 'ok' or (strip_mut(e.val).op == 'agg' and strip_mut(e.val).a[0].split('::')[-1] in ('Ok', 'None')))]
            ctx.ob('parallel', 'error kept', not good, good[0] if good else w, 'a recorded error is overwritten by a point that can be read')
            part = [[a for c in e.guard for a in c if not loopish(a) and mentions(a, lambda x: x.op in ('elem', 'idx', 'rangeidx'))
                     and not mentions(a, lambda x: is_call(x, 'PointCloud::point') or (x.op == 'call' and x.a[0].split('::')[-1] in ('lock', 'try_lock', 'load')))] for e in stored]
            ctx.ob('parallel', 'every error', not stored or not all(part), stored[0] if stored else w, 'an error is recorded only when ' + short(part))
            ctx.tri('parallel', 'error returned', True if rets else False if stored and not any(is_err(x) for _, x in alts(fr.ret())) else None, b.name, 'the recorded error is not returned')
        else:
            # a list the workers append to as they finish
            roots = [x for x in sem.subterms(v) if x.op == 'new']
            late = [e for e in evs if e.kind == 'call' and e.name.split('::')[-1] in ('push', 'extend', 'append', 'extend_from_slice') and e.args and
                    mentions(e.args[0], lambda x: any(x is y for y in roots)) and any(mentions(s, lambda x: x.op == 'call' and x.a[0].split('::')[-1] in ('par_chunks', 'par_iter', 'into_par_iter', 'par_bridge')) for s in seqs(e.guard))]
            srt = [e for e in evs if e.kind == 'call' and 'sort' in e.name]
            if late and not srt and v.op == 'call' and v.a[0].split('::')[-1] in ('into_inner', 'lock'):
                seen += 1
                ctx.ob('parallel', 'in order', False, late[0], 'the distances come in the order in which the workers finish')
                continue
            ctx.undecided('distances_to_point: ' + short(v))
    if not seen:
        ctx.undecided('distances_to_point')
    b = ctx.body(CLOUD, 'distances_to_point_index')
    OP = ('PointCloud::distances_to_point',)
    fr = ctx.frame(b, OP)
    vs = [okval(v) for _, v in alts(fr.ret()) if not is_err(v)]
    touched = [e for e in ctx.events(b, OP) if e.kind == 'write' and mentions(e.lval, lambda x: x.op == 'call' and x.a[0] == 'PointCloud::distances_to_point')]
    if touched:
        ctx.tri('index', 'left as they are', False if all(e.val.op == 'const' for e in touched) and not any(mentions(a, lambda x: is_param(x, 1)) and a.op == 'bin' and a.a[0] == 'Eq' for e in touched for c in e.guard for a in c) else None, touched[0], 'a distance is overwritten: ' + short(touched[0].val))
    for v in vs:
        if not is_call(v, 'PointCloud::distances_to_point'):
            ctx.tri('index', 'distances_to_point_index', None, b.name)
            continue
        p = okval(v.a[1][1])
        r = is_call(p, 'PointCloud::point') and is_param(p.a[1][1], 1) and strip_mut(v.a[1][2]) is strip_mut(fr.args[2])
        ctx.tri('index', 'distances_to_point_index', True if r else False if is_call(p, 'PointCloud::point') else None, b.name, 'the distances are not those to the point of the index: ' + short(v))


def same_chunk(a, b):
    if strip_mut(a[1]) is strip_mut(b[1]):
        return True
    try:
        la, lb = lin(a[1]), lin(b[1])
    except Exception:
        return None
    return False if la[0] == lb[0] and la[1] != lb[1] else None


def must_fail(e):
    return any(a.op == 'is' and a.a[1] == 'Err' and mentions(a.a[0], lambda x: is_call(x, 'PointCloud::point')) for a in must_atoms(e.guard)) or \
        any(a.op == 'try' and a.a[1] != 'ok' and mentions(a.a[0], lambda x: is_call(x, 'PointCloud::point')) for a in must_atoms(e.guard))


@prop('P05')
def moments(ctx):
    """the moments are the sums over all indexes of the coordinates and of their squares"""
    for meth, power in (('moment_1', 1), ('moment_2', 2)):
        b = ctx.body(CLOUD, meth)
        fr, evs = ctx.frame(b), ctx.events(b)
        idx = strip_mut(fr.args[1])
        vs = [okval(v) for _, v in alts(fr.ret()) if not is_err(v)]
        if len(vs) != 1 or not (vs[0].op == 'call' and vs[0].a[0].endswith('from_elem')):
            ctx.undecided(meth + ': ' + short(vs))
            continue
        v = vs[0]
        z = strip_mut(v.a[1][0])
        ctx.tri('moment', meth + ' from zero', True if is_call(z, 'Default::default') or floatval(z) == 0 or intval(z) == 0 else False if z.op == 'const' else None, b.name, 'the sum starts at ' + short(z))
        ctx.tri('moment', meth + ' coordinates', True if is_call(v.a[1][1], 'PointCloud::dim') else None, b.name)
        ws = [e for e in evs if e.kind == 'write' and mentions(e.lval, lambda x: x is v)]
        if len(ws) != 1:
            ctx.undecided(meth + ': ' + short(ws))
            continue
        w = ws[0]
        el = strip_mut(w.lval)
        den = [x for x in sem.subterms(w.val) if x.op == 'elem' and mentions(x, lambda y: is_call(y, 'PointCloud::point')) and strip_mut(x.a[0]).op == 'call']
        if not den:
            ctx.undecided(meth + ': ' + short(w.val))
            continue
        c = den[0]
        A = Alg(evs)
        try:
            want = A.add(A.poly(el), A.mul(A.poly(c), A.poly(c)) if power == 2 else A.poly(c))
            r = A.eq(w.val, want)
        except NoForm:
            r = None
        ctx.tri('moment', meth + ' term', r, w, 'a coordinate adds ' + short(w.val))
        p = [x for x in sem.subterms(c) if x.op == 'call' and is_call(x, 'PointCloud::point')][0]
        ctx.tri('moment', meth + ' point', is_elem(p.a[1][1], lambda s: strip_mut(s) is idx) or None, w, 'the point is ' + short(p))
        sq = seqs(w.guard)
        zz = [s for s in sq if strip_mut(s).op == 'zip']
        bad = [s for s in sq if mentions(s, lambda x: x.op in ('filtered', 'taken', 'stepby', 'rev'))]
        extra = [a for cc in w.guard for a in cc if not loopish(a) and not (a.op == 'is' and mentions(a.a[0], lambda x: is_call(x, 'PointCloud::point')))]
        ctx.ob('moment', meth + ' every coordinate', not bad and not extra, w, 'coordinates or points are left out: ' + short(bad + extra))
        errs = [x for _, x in alts(fr.ret()) if is_err(x)]
        ctx.ob('moment', meth + ' error', bool(errs), b.name, 'a point that cannot be read is skipped without an error')


@prop('D03')
def matrices(ctx):
    """row k of the matrix is the k-th point asked for"""
    b = ctx.body(CLOUD, 'point_dense_array')
    fr, evs = ctx.frame(b), ctx.events(b)
    mk_ = [e for e in evs if e.kind == 'call' and e.name.endswith('from_shape_vec')]
    if len(mk_) != 1:
        ctx.undecided('point_dense_array')
    else:
        v = strip_mut(mk_[0].args[1])
        p = [x for x in sem.subterms(v) if x.op == 'call' and is_call(x, 'PointCloud::point')]
        ctx.tri('matrix', 'point_dense_array', (True if p and all(is_param(x.a[1][1], 1) for x in p) and v.op == 'call' else None), b.name)
        ctx.tri('matrix', 'point_dense_array shape', shape(mk_[0].args[0], ['dim']), mk_[0], 'the shape is ' + short(mk_[0].args[0]))
    b = ctx.body(CLOUD, 'points_dense_matrix')
    fr, evs = ctx.frame(b), ctx.events(b)
    idx = strip_mut(fr.args[1])
    mk_ = [e for e in evs if e.kind == 'call' and e.name.endswith('from_shape_vec')]
    if len(mk_) != 1:
        ctx.undecided('points_dense_matrix')
        return
    d = strip_mut(mk_[0].args[1])
    ctx.tri('matrix', 'points_dense_matrix shape', shape(mk_[0].args[0], ['len', 'dim'], idx), mk_[0], 'the shape is ' + short(mk_[0].args[0]))
    g = [e for e in evs if e.kind == 'call' and e.args and strip_mut(e.args[0]) is d and e.name.split('::')[-1] in GROW]
    if len(g) == 1:
        e = g[0]
        p = [x for x in sem.subterms(e.args[1]) if x.op == 'call' and is_call(x, 'PointCloud::point')]
        ok = p and all(is_elem(x.a[1][1], lambda s: strip_mut(s) is idx) for x in p)
        sq = seqs(e.guard)
        bad = [s for s in sq if mentions(s, lambda x: x.op in ('filtered', 'taken', 'stepby', 'rev'))]
        extra = [a for c in strip_noise(e.guard) for a in c if not loopish(a)]
        ctx.tri('matrix', 'points_dense_matrix rows', False if bad or extra else True if ok and strip_mut(e.args[1]).op == 'call' else None, e, 'the rows are not the points asked for, in order: ' + short(bad + extra))
    else:
        ctx.undecided('points_dense_matrix: ' + short(g))
    errs = [x for _, x in alts(fr.ret()) if is_err(x)]
    ctx.ob('matrix', 'points_dense_matrix error', bool(errs), b.name, 'a point that cannot be read is skipped without an error')


def shape(t, want, idx=None):
    t = strip_mut(t)
    if t.op != 'agg' or len(t.a[1]) != len(want):
        return None
    for (_, x), w in zip(t.a[1], want):
        x = strip_mut(x)
        if w == 'dim' and not is_call(x, 'PointCloud::dim'):
            return False if len_of(x) is not None or lin_only(x) else None
        if w == 'len' and not (len_of(x) is not None and strip_mut(len_of(x)) is idx):
            return False if is_call(x, 'PointCloud::dim') else None
    return True
