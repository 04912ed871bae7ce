"""D10: the sparse cloud."""
from itertools import product
from rules import prop
from rules.cloud import Ints, okval, is_err, region, counted, lin_only
from rules.plugins import picked
from rulelib import *
import sem

SP = 'SparseDataRam'
ROWS = ((0,), (0, 4), (0, 0), (0, 2, 2, 5), (0, 1, 4, 4, 9))


def cell(ctx, evs, rows, i=None):
    def at(k):
        if not isinstance(k, int) or not 0 <= k < len(rows):
            raise Unknown('out of the rows')
        return rows[k]

    def leaf(t):
        if i is not None and is_param(t, 1) and t.op == 'param':
            return i
        if selff(t, 'dim') and t.op == 'field':
            return 77
        if len_of(t) is not None and selff(len_of(t), 'row_index'):
            return len(rows)
        if len_of(t) is not None and (selff(len_of(t), 'values') or selff(len_of(t), 'col_index')):
            return rows[-1]
        if t.op in ('empty', 'nonempty') and (selff(t.a[0], 'values') or selff(t.a[0], 'col_index')):
            return (rows[-1] == 0) == (t.op == 'empty')
        if t.op in ('empty', 'nonempty') and selff(t.a[0], 'row_index'):
            return t.op == 'nonempty'
        if t.op == 'call' and t.a[0] == 'PointCloud::len' and is_param(t.a[1][0], 0):
            return len(rows) - 1
        if t.op == 'index' and selff(t.a[0], 'row_index') and rng(t.a[1]) is None:
            return at(S.val(t.a[1]))
        if t.op == 'index' and rng(strip_mut(t.a[0]).a[1] if strip_mut(t.a[0]).op == 'index' else t) is not None:
            b = strip_mut(t.a[0])
            if selff(b.a[0], 'row_index'):
                r = rng(b.a[1])
                return at((0 if r[1] is None else S.val(r[1])) + S.val(t.a[1]))
        if t.op == 'is' or t.op == 'try':
            x = strip_mut(t.a[0])
            if x.op in ('index', 'narrow') or x.op == 'call' and x.a[0].split('::')[-1] in ('try_into', 'try_from'):
                return t.a[1] in ('Ok', 'Some', 'ok')
            if x.op == 'getopt' and selff(x.a[0], 'row_index'):
                return (0 <= S.val(x.a[1]) < len(rows)) == (t.a[1] in ('Some', 'ok'))
        if t.op == 'payload':
            x = strip_mut(t.a[0])
            if x.op == 'getopt' and selff(x.a[0], 'row_index'):
                return at(S.val(x.a[1]))
            if x.op == 'index':
                return S.val(x)
            if x.op == 'call' and x.a[0].split('::')[-1] in ('try_into', 'try_from', 'into', 'from') and len(x.a[1]) == 1:
                return S.val(x.a[1][0])
        return None
    S = Ints(evs, leaf)
    return S


@prop('D10')
def sparse_points(ctx):
    """point i is what is stored between row_index[i] and row_index[i + 1]"""
    b = ctx.body(SP, 'point')
    op = ('SparseRef::new',)
    evs, fr = ctx.events(b, op), ctx.frame(b, op)
    for rows in ROWS:
        for i in range(len(rows) - 1):
            S = cell(ctx, evs, rows, i)
            key = 'point(%d) of rows %s' % (i, list(rows))
            try:
                v = picked(S, fr.ret())
                if v is None:
                    raise Unknown(fr.ret())
                if is_err(v):
                    ctx.ob('row', key, False, b.name, 'a stored point is an error')
                    continue
                v = strip(v)
                if not is_call(v, 'SparseRef::new'):
                    raise Unknown(v)
                d, x, y = v.a[1]
                got = (S.val(d), region(S, x, lambda t: selff(t, 'values'), rows[-1]), region(S, y, lambda t: selff(t, 'col_index'), rows[-1]))
            except Unknown as u:
                ctx.tri('row', key, None, b.name, u)
                continue
            want = (77, (rows[i], rows[i + 1]), (rows[i], rows[i + 1]))
            if any(e.kind == 'call' and 'panic' in e.name and S.guard(e.guard) for e in evs):
                got = 'panic'
            ctx.ob('row', key, got == want, b.name, 'dimension, values and indexes are %s instead of %s' % (got, want))


@prop('D10')
def sparse_sizes(ctx):
    for meth, want in (('len', lambda n: n), ('dim', lambda n: 77), ('is_empty', lambda n: n == 0)):
        b = ctx.body(SP, meth)
        evs, ret = ctx.events(b), ctx.frame(b).ret()
        for rows in ROWS:
            S = cell(ctx, evs, rows)
            key = '%s of rows %s' % (meth, list(rows))
            try:
                v = S.val(ret)
            except Unknown as u:
                ctx.tri('size', key, None, b.name, u)
                continue
            ctx.ob('size', key, v == want(len(rows) - 1), b.name, '%s gives %s' % (meth, v))
    for meth in ('reference_indexes', 'names'):
        b = ctx.body(SP, meth)
        ret = ctx.frame(b).ret()
        if strip_mut(ret).op == 'new':
            ret = collected(ctx.events(b)).get(strip_mut(ret), ret)
        for rows in ROWS:
            S = cell(ctx, ctx.events(b), rows)
            key = '%s of rows %s' % (meth, list(rows))
            try:
                v = counted(ctx, S, ret)
            except Unknown as u:
                ctx.tri('indexes', key, None, b.name, u)
                continue
            ctx.ob('indexes', key, v == (0, len(rows) - 1), b.name, 'it runs over %s, not 0..%d' % (v, len(rows) - 1))
    b = ctx.body(SP, 'name')
    v = [okval(x) for _, x in alts(ctx.frame(b).ret()) if not is_err(x)]
    ctx.tri('name', 'name', all(is_param(x, 1) for x in v) if v and all(lin_only(x) for x in v) else None, b.name, 'the name of a point is not its index: ' + short(v))
    b = ctx.body(SP, 'index')
    v = [okval(x) for _, x in alts(ctx.frame(b).ret()) if not is_err(x)]
    ps = [x for t in v for x in sem.subterms(t) if x.op == 'call' and x.a[0].split('::')[-1] in ('parse', 'from_str')]
    ctx.tri('name', 'index', True if v and all(x in ps for x in v) else False if ps and all(lin_only(x) for x in v) else None, b.name, 'the index of a name is not the number it spells: ' + short(v))


@prop('D10')
def sparse_bare(ctx):
    for meth in ('label', 'metadata'):
        b = ctx.body(SP, meth)
        vs = [okval(v) for _, v in alts(ctx.frame(b).ret())]
        no = [v.op == 'agg' and v.a[0].split('::')[-1] == 'None' for v in vs]
        ctx.tri('bare', meth, all(no) if no and all(v.op == 'agg' for v in vs) else None, b.name, 'an unlabeled cloud gives ' + short(vs))
    for meth in ('label_summary', 'metasummary'):
        b = ctx.body(SP, meth)
        fr = ctx.frame(b)
        v = okval(fr.ret())
        if v.op != 'agg' or 'nones' not in dict(v.a[1]):
            ctx.undecided('%s: %s' % (meth, short(v)))
            continue
        d = {k: strip_mut(x) for k, x in v.a[1]}
        n = d['nones']
        ok = len_of(n) is not None and strip_mut(len_of(n)) is strip_mut(fr.args[1])
        ctx.tri('bare', meth + ' nones', True if ok else False if lin_only(n) or len_of(n) is not None else None, b.name, 'of the points asked for it counts as unlabeled ' + short(n))
        ctx.tri('bare', meth + ' errors', True if intval(d['errors']) == 0 else False if lin_only(d['errors']) or len_of(d['errors']) is not None else None, b.name, 'it counts errors: ' + short(d['errors']))
    b = ctx.body(SP, 'new')
    v = okval(ctx.frame(b).ret())
    if v.op != 'agg':
        ctx.undecided('new: ' + short(v))
        return
    d = dict(v.a[1])
    for k, (f, at) in enumerate((('values', 0), ('col_index', 1), ('row_index', 2), ('dim', 3))):
        x = d.get(f)
        ctx.tri('make', f, None if x is None else True if is_param(x, at) else False if strip_mut(x).op in ('param', 'const', 'bin') else None, b.name, '%s is %s' % (f, short(x)))
