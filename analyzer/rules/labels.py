"""D04, D05: label sets and their masks, summaries of labels."""
from functools import cmp_to_key
from itertools import product
from rules import prop
from rules.paths import uncond, seqs
from rules.plugins import picked
from rules.cloud import Ints, is_err, okval, rng, region, lin_only, copied
from algebra import Alg, NoForm
from rulelib import *
import sem

SMALL, VEC = 'SmallIntLabels', 'VecLabels'


def is_none(t):
    t = strip_mut(t)
    return t.op == 'agg' and t.a[0].split('::')[-1] == 'None'


def in_order(evs):
    def c(a, b):
        if event_may_precede(a, b) and not event_may_precede(b, a):
            return -1
        if event_may_precede(b, a) and not event_may_precede(a, b):
            return 1
        return 0
    return sorted(evs, key=cmp_to_key(c))


def poly_is(A, t, want):
    try:
        return A.eq(t, want)
    except NoForm:
        return None


# ---- labels -----------------------------------------------------------------------------

def mask_leaf(mask, at, n=None, dim=None, labels='labels', inner=None, probe=()):
    """mask: None (no mask), True/False (its bit at the index); at(term): it is that index"""
    def leaf(t):
        if inner is not None:
            v = inner(t)
            if v is not None:
                return v
        if t.op == 'is' and selff(t.a[0], 'mask'):
            return (mask is not None) == (t.a[1] == 'Some')
        if t.op == 'is' and bit(t.a[0]):
            return t.a[1] == 'Some'
        if t.op in ('index', 'getopt', 'call', 'payload') and bit(t):
            if mask is None:
                return None
            b = mask if bit(t) is True else not mask
            return ('Some', b) if t.op == 'getopt' else b
        if t.op == 'call' and t.a[0].split('::')[-1] in ('is_some', 'is_none') and selff(t.a[1][0], 'mask'):
            return (mask is not None) == t.a[0].endswith('is_some')
        if dim is not None and selff(t, 'label_dim'):
            return dim
        if n is not None and len_of(t) is not None and selff(len_of(t), labels):
            return n
        return None

    def bit(t):
        t = strip_mut(t)
        while t.op in ('payload', 'narrow'):
            t = strip_mut(t.a[0])
        if t.op in ('index', 'getopt'):
            b, i = okval(t.a[0]), t.a[1]
            while b.op in ('payload', 'ok', 'some', 'narrow'):
                b = strip_mut(b.a[0])
            if selff(b, 'mask'):
                # another bit than that of the index is taken to differ from it
                return True if at(i) else 'other' if intval(i) is not None and inner is not None and any(inner(x) not in (None, intval(i)) for x in probe) else False
        return False
    return leaf


def entry_of(S, ty, t, at, i, n, dim):
    """True/False/None: t is the label at the index"""
    t = okval(t)
    if ty == SMALL:
        if t.op in ('getopt', 'index') and selff(t.a[0], 'labels'):
            if at(t.a[1]):
                return True
            return False if lin_only(t.a[1]) or mentions(t.a[1], at) else None
        return None
    try:
        r = region(S, t, lambda x: selff(x, 'labels'), n)
    except Unknown:
        return None
    return r == (i * dim, i * dim + dim)


@prop('D04')
def label_of(ctx):
    """the label of an index is the one stored for it, absent iff its mask bit is off"""
    at = lambda t: is_param(t, 1)
    for ty in (SMALL, VEC):
        b = ctx.body(ty, 'label')
        fr, evs = ctx.frame(b), ctx.events(b)
        for mask, dim, i in product((None, True, False), (1, 3) if ty == VEC else (1,), (0, 1, 3)):
            n = 4 * dim
            S = Ints(evs, mask_leaf(mask, at, n, dim, inner=lambda t: i if at(t) else None, probe=(fr.args[1],)))
            key = '%s::label(%d) mask %s dim %d' % (ty, i, mask, dim)
            v = picked(S, fr.ret())
            if v is None:
                ctx.tri('label', key, None, b.name)
                continue
            v = okval(v)
            if mask is False:
                ctx.tri('label', key, True if is_none(v) else False if entry_of(S, ty, v, at, i, n, dim) is not None else None, b.name, 'a masked label is returned')
            else:
                ctx.tri('label', key, False if is_none(v) or is_err(v) else entry_of(S, ty, v, at, i, n, dim), b.name, 'the label is ' + short(v))


@prop('D04')
def label_blind(ctx):
    """whether there is a label depends on the mask at that place, not on the label"""
    for ty in (SMALL, VEC):
        for meth in ('label', 'label_summary'):
            b = ctx.body(ty, meth)
            OP = ('CategorySummary::add', 'VecSummary::add', 'Summary::add')
            fr, evs = ctx.frame(b, OP), ctx.events(b, OP)
            lab, mask = sem.field(fr.args[0], 'labels'), sem.field(fr.args[0], 'mask')
            gs = [g for g, _ in alts(okval(fr.ret()))] + [g for g, _ in alts(fr.ret())] if meth == 'label' else [e.guard for e in evs if e.kind == 'call' and e.name in OP]
            atoms = {a for g in gs for c in g for a in c}

            def read(t):
                t = strip_mut(t)
                while t.op == 'payload':
                    t = strip_mut(t.a[0])
                return t.op in ('index', 'getopt') and strip_mut(t.a[0]) is lab
            bad = [a for a in atoms for x in sem.subterms(a) if x.op == 'bin' and x.a[0] in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne') and any(read(y) for y in x.a[1:])]
            ctx.ob('blind', '%s::%s' % (ty, meth), not bad, b.name, 'a label is left out unless ' + short(bad[:1]))
            if meth == 'label':
                at = [x for a in atoms for x in sem.subterms(a) if x.op in ('index', 'getopt') and mentions(x.a[0], lambda y: y is mask)]
                off = [x for x in at if lin_only(x.a[1]) and not is_param(x.a[1], 1)]
                ctx.ob('blind', '%s::%s place of the mask' % (ty, meth), not off, b.name, 'the mask is read at ' + short(off[:1]))


@prop('D04')
def label_sizes(ctx):
    """len and is_empty count labels"""
    for ty in (SMALL, VEC):
        for meth in ('len', 'is_empty'):
            b = ctx.body(ty, meth)
            fr, evs = ctx.frame(b), ctx.events(b)
            for rows, dim in product((0, 1, 5), (1, 3) if ty == VEC else (1,)):
                S = Ints(evs, lambda t: dim if selff(t, 'label_dim') else rows * dim if len_of(t) is not None and selff(len_of(t), 'labels') else None)
                key = '%s::%s of %d, dim %d' % (ty, meth, rows, dim)
                try:
                    v = S.val(fr.ret())
                except Unknown:
                    ctx.tri('sizes', key, None, b.name)
                    continue
                ctx.ob('sizes', key, v == (rows if meth == 'len' else rows == 0), b.name, '%s gives %s' % (meth, v))
    b = ctx.body(VEC, 'dim')
    v = strip_mut(ctx.frame(b).ret())
    ctx.tri('sizes', 'VecLabels::dim', True if selff(v, 'label_dim') else False if lin_only(v) or len_of(v) is not None else None, b.name, 'the dimension is ' + short(v))
    for ty, fs in ((SMALL, {'labels': 0, 'mask': 1}), (VEC, {'labels': 0, 'label_dim': 1, 'mask': 2})):
        b = ctx.body(ty, 'new')
        fr, evs = ctx.frame(b), ctx.events(b)
        v = okval(fr.ret())
        if v.op != 'agg':
            ctx.undecided(ty + '::new')
            continue
        d = dict(v.a[1])
        for f, i in fs.items():
            ctx.tri('sizes', '%s::new %s' % (ty, f), True if is_param(d[f], i) else False if is_none(d[f]) or strip_mut(d[f]).op == 'param' else None, b.name, 'what is kept is ' + short(d[f]))


@prop('D04')
def label_summaries(ctx):
    """a summary counts each index once, as its label or as unlabeled"""
    OP = ('Summary::add', 'SummaryCounter::add')
    for ty in (SMALL, VEC):
        b = ctx.body(ty, 'label_summary')
        fr, evs = ctx.frame(b, OP), ctx.events(b, OP)
        pns = strip_mut(fr.args[1])
        at = lambda t: is_elem(t, lambda s: strip_mut(s) is pns)
        ret = okval(fr.ret())
        for mask, dim, i in product((None, True, False), (1, 3) if ty == VEC else (1,), (0, 2)):
            n = 4 * dim
            key = '%s::label_summary mask %s dim %d at %d' % (ty, mask, dim, i)
            if ret.op != 'agg' or 'nones' not in dict(ret.a[1]):
                ctx.tri('summary', key, None, b.name)
                continue
            d = dict(ret.a[1])

            def inner(t):
                if at(t):
                    return i
                if t.op == 'each' and strip_mut(t.a[0]) is pns:
                    return True
                if t.op == 'is' and strip_mut(t.a[0]).op in ('getopt',):
                    try:
                        r = region(S, t.a[0], lambda x: selff(x, 'labels'), n)
                    except Unknown:
                        return None
                    return (r is not None) == (t.a[1] == 'Some')
                return None
            S = Ints(evs, mask_leaf(mask, at, n, dim, inner=inner, probe=(sem.elem(pns),)))
            try:
                adds = S.fired(calls(evs, 'Summary::add'))
                if calls(evs, 'SummaryCounter::add'):
                    raise Unknown(ret)
                nn = counted_up(S, evs, d['nones'])
                ee = counted_up(S, evs, d['errors'])
            except Unknown:
                ctx.tri('summary', key, None, b.name)
                continue
            good = True
            why = ''
            if mask is False:
                if adds or nn != 1:
                    good, why = False, 'a masked label is counted %d times and as unlabeled %s times' % (len(adds), nn)
            else:
                if len(adds) != 1 or nn != 0:
                    good, why = False, 'a label is counted %d times and as unlabeled %s times' % (len(adds), nn)
                else:
                    r = entry_of(S, ty, adds[0].args[1], at, i, n, dim)
                    if r is not True:
                        good, why = r, 'the label counted is ' + short(adds[0].args[1])
                    elif strip_mut(adds[0].args[0]) is not strip_mut(d['summary']):
                        good = None
            if ee != 0:
                good, why = False, 'an index that can be read counts as an error'
            ctx.tri('summary', key, good, b.name, why)
        for e in calls(evs, 'Summary::add'):
            bad = [s for s in seqs(e.guard) if mentions(s, lambda x: x.op in ('filtered', 'taken', 'stepby')) and mentions(s, lambda x: x is pns)]
            ctx.ob('summary', ty + ' every index', not bad, e, 'indexes are left out: ' + short(bad))


def counted_up(S, evs, t):
    """how many times the counter t is incremented in this cell, it must start at 0"""
    t = strip_mut(t)
    if intval(t) is not None:
        return intval(t)
    if t.op == 'phi':
        vs = [strip_mut(x) for _, x in alts(t)]
        recs = {x for x in vs if x.op == 'rec'}
        init = [x for x in vs if x.op != 'rec' and not mentions(x, lambda y: y.op == 'rec')]
        if len(recs) == 1 and all(intval(x) == 0 for x in init):
            r = recs.pop()
            sets = [w for w in evs if w.kind == 'set' and w.lval.op == 'var' and (w.lval.a[0], w.lval.a[1]) == (r.a[0], r.a[1])]
            n = 0
            for w in S.fired(sets):
                if intval(w.val) == 0 and not seqs(w.guard):
                    continue
                l = lin(w.val)
                if len(l[0]) != 1 or list(l[0].values()) != [1]:
                    raise Unknown(t)
                n += l[1]
            return n
    if t.op == 'call' and t.a[0].split('::')[-1] == 'count' and len(t.a[1]) == 1:
        return 1 if S._runs(t.a[1][0]) else 0
    raise Unknown(t)


@prop('D04')
def label_merge(ctx):
    """merging appends labels and mask bits, bits of a side without a mask are all on"""
    b = ctx.body(SMALL, 'merge')
    fr, evs = ctx.frame(b), ctx.events(b)
    other = strip_mut(fr.args[1])
    of = lambda t, f: strip_mut(t).op == 'field' and strip_mut(t).a[1] == f and strip_mut(strip_mut(t).a[0]) is other
    APP = ('extend', 'extend_from_slice', 'append')
    g = [e for e in evs if e.kind == 'call' and e.args and selff(e.args[0], 'labels') and e.name.split('::')[-1] in GROW + SHRINK]
    r = None
    if len(g) == 1 and g[0].name.split('::')[-1] in APP and not seqs(g[0].guard):
        a = strip_mut(g[0].args[1])
        r = True if of(a, 'labels') and uncond(g[0]) else False if of(a, 'labels') or (a.op in ('filtered', 'taken', 'stepby', 'rev') and mentions(a, lambda x: of(x, 'labels'))) else None
    elif not g and not writes(evs, 'labels'):
        r = False
    ctx.tri('merge', 'labels', r, b.name, 'the labels of the other set are not appended as they are: ' + short(g))
    ext = g[0] if len(g) == 1 else None
    for m, o in product((False, True), (False, True)):
        def leaf(t):
            if t.op == 'is' and selff(t.a[0], 'mask'):
                return m == (t.a[1] == 'Some')
            if t.op == 'is' and of(t.a[0], 'mask'):
                return o == (t.a[1] == 'Some')
            if t.op == 'call' and t.a[0].split('::')[-1] in ('is_some', 'is_none'):
                x = t.a[1][0]
                v = m if selff(x, 'mask') else o if of(x, 'mask') else None
                return None if v is None else v == t.a[0].endswith('is_some')
            return None
        S = Ints(evs, leaf)
        key = 'mask %s, other %s' % ('yes' if m else 'no', 'yes' if o else 'no')
        try:
            fired = in_order(S.fired([e for e in evs if (e.kind == 'call' and e.args and e.name.split('::')[-1] in GROW + SHRINK) or (e.kind == 'write' and selff(e.lval, 'mask'))]))
        except Unknown:
            ctx.tri('merge', key, None, b.name)
            continue
        bits = [('self',)] if m else None
        made = {}
        ok = True
        for e in fired:
            if e.kind == 'call':
                if selff(e.args[0], 'labels'):
                    continue
                if e.name.split('::')[-1] not in APP + ('resize',):
                    ok = None
                    continue
                tgt = okval(e.args[0])
                while tgt.op in ('payload', 'narrow'):
                    tgt = strip_mut(tgt.a[0])
                s = bitseq(e, of, ext) if e.name.split('::')[-1] != 'resize' else None
                if s is None:
                    ok = None
                elif selff(tgt, 'mask'):
                    if bits is not None:
                        bits = bits + s
                else:
                    made.setdefault(tgt, []).append((e, s))
            else:
                v = okval(e.val)
                if is_none(v):
                    bits = None
                    continue
                base = bitterm(v, of, ext, e)
                if base is None:
                    ok = None
                    continue
                bits = base + [x for c, s in made.get(v, []) for x in s if event_may_precede(c, e)]
        want = ([('self',)] if m else [('true', 'self')]) + ([('other',)] if o else [('true', 'other')]) if m or o else None
        flat = bits if bits is None else [x for x in bits if x]
        ctx.tri('merge', key, None if ok is None else flat == want, b.name, 'the mask becomes %s, not %s' % (flat, want))


def bitterm(v, of, ext, e):
    v = strip_mut(v)
    while v.op in ('payload', 'some', 'ok', 'narrow'):
        v = strip_mut(v.a[0])
    if v.op == 'new':
        return []
    if v.op == 'chain':
        a, c = bitterm(v.a[0], of, ext, e), bitterm(v.a[1], of, ext, e)
        return None if a is None or c is None else a + c
    if v.op in ('filtered', 'stepby', 'rev') and bitterm(v.a[0], of, ext, e) is not None:
        return [('not all',)]
    if of(v, 'mask'):
        return [('other',)]
    if selff(v, 'mask'):
        return [('self',)]
    n = val = None
    if v.op == 'taken' and v.a[1] == 'take' and is_call(v.a[0], 'iter::repeat'):
        n, val = v.a[2], strip_mut(v.a[0]).a[1][0]
    elif v.op == 'call' and v.a[0].endswith('from_elem'):
        val, n = v.a[1]
    elif v.op == 'call' and v.a[0].split('::')[-1] == 'repeat_n':
        val, n = v.a[1]
    if n is None:
        return None
    w = strip_mut(val)
    if w.op != 'const' or w.a[0] not in ('true', 'false'):
        return None
    l = lin(n)
    who = {}
    for x, c in l[0].items():
        y = len_of(x)
        if y is None:
            return None
        if selff(y, 'labels'):
            who['self'] = who.get('self', 0) + c
        elif of(y, 'labels'):
            who['other'] = who.get('other', 0) + c
        else:
            return None
    # the length of self is taken before or after the other labels are appended
    if ext is not None and 'self' in who:
        lens = e
        late = event_may_precede(ext, lens) and not event_may_precede(lens, ext)
        if late:
            who['other'] = who.get('other', 0) + who['self']
    who = {k: c for k, c in who.items() if c}
    if l[1] != 0 or len(who) != 1 or list(who.values()) != [1]:
        return [(w.a[0], 'wrong number')]
    return [(w.a[0], list(who)[0])]


def bitseq(e, of, ext):
    return bitterm(e.args[1], of, ext, e)


@prop('D04')
def label_convert(ctx):
    """integer labels say which coordinate was on; rows with none on are masked, masked rows stay masked"""
    for meth in ('one_hot_to_int', 'binary_to_int'):
        b = ctx.body(VEC, meth)
        fr, evs = ctx.frame(b), ctx.events(b)
        v = okval(fr.ret())
        if v.op != 'agg' or not {'labels', 'mask'} <= set(dict(v.a[1])):
            ctx.undecided(meth + ': ' + short(v))
            continue
        d = dict(v.a[1])
        lab, msk = strip_mut(d['labels']), okval(d['mask'])
        if lab.op == 'new':
            lab = strip_mut(collected(evs).get(lab, lab))
        if is_none(msk):
            ctx.ob('convert', meth + ' mask', False, b.name, 'the mask is dropped')
            continue
        # the mask starts as that of the vectors, all on if they have none
        for m in (True, False):
            S = Ints(evs, lambda t: m == (t.a[1] == 'Some') if t.op == 'is' and selff(t.a[0], 'mask') else None)
            w = picked(S, msk)
            w = okval(w) if w is not None else None
            while w is not None and w.op in ('payload', 'narrow'):
                w = strip_mut(w.a[0])
            r = None
            if w is not None and m:
                r = True if selff(w, 'mask') else False if w.op == 'call' and w.a[0].endswith('from_elem') else None
            elif w is not None and w.op == 'call' and w.a[0].endswith('from_elem'):
                x = strip_mut(w.a[1][0])
                r = x.a[0] == 'true' if x.op == 'const' else None
                if r:
                    for rows, dim in product((0, 1, 4), (1, 3)):
                        T_ = Ints(evs, lambda t: dim if selff(t, 'label_dim') else rows * dim if len_of(t) is not None and selff(len_of(t), 'labels') else None)
                        try:
                            if T_.val(w.a[1][1]) != rows:
                                r = False
                        except Unknown:
                            r = None
            ctx.tri('convert', '%s mask of %s vectors' % (meth, 'masked' if m else 'unmasked'), r, b.name, 'the mask is ' + short(w))
        if lab.op != 'mapped' or rng(lab.a[0]) is None:
            ctx.undecided(meth + ' labels: ' + short(lab))
            continue
        src = strip_mut(lab.a[0])
        for rows, dim in product((0, 1, 4), (1, 3)):
            T_ = Ints(evs, lambda t: dim if selff(t, 'label_dim') else rows * dim if len_of(t) is not None and selff(len_of(t), 'labels') else None)
            try:
                _, a, z = rng(src)
                r = (T_.val(a), T_.val(z)) == (0, rows)
            except Unknown:
                r = None
            ctx.tri('convert', '%s one label per vector, %d of dim %d' % (meth, rows, dim), r, b.name, 'labels run over ' + short(src))
        val = strip_mut(lab.a[1])
        pos = lambda t: strip_mut(t).op == 'rangeidx' and strip_mut(strip_mut(t).a[0]) is src
        ws = [e for e in evs if e.kind == 'write' and strip_mut(e.lval).op == 'index' and strip_mut(e.val).op == 'const' and strip_mut(e.val).a[0] in ('true', 'false')]
        for dim, i, x in product((1,) if meth == 'binary_to_int' else (2, 3), (0, 2), (0.0, 0.4, 0.5, 0.6, 1.0)):
            n = 4 * dim
            row = lambda t: region(S, t, lambda y: selff(y, 'labels'), n)

            def leaf(t):
                if pos(t):
                    return i
                if t.op == 'each' and strip_mut(t.a[0]) is src:
                    return True
                if selff(t, 'label_dim'):
                    return dim
                if len_of(t) is not None and selff(len_of(t), 'labels'):
                    return n
                if t.op == 'is' and strip_mut(t.a[0]).op == 'getopt' and selff(strip_mut(t.a[0]).a[0], 'labels') and rng(strip_mut(t.a[0]).a[1]) is None:
                    k = S.val(strip_mut(t.a[0]).a[1])
                    return (0 <= k < n) == (t.a[1] == 'Some')
                if (t.op == 'payload' and strip_mut(t.a[0]).op == 'getopt' and selff(strip_mut(t.a[0]).a[0], 'labels')) or (t.op == 'index' and selff(t.a[0], 'labels')):
                    u = strip_mut(t.a[0]) if t.op == 'payload' else t
                    if rng(u.a[1]) is None:
                        if S.val(u.a[1]) != i * dim:
                            raise Wrong('label %d is read from value %s' % (i, S.val(u.a[1])))
                        return x
                if t.op in ('elem', 'idx') or (t.op == 'each'):
                    base = strip_mut(t.a[0])
                    while base.op in ('enumerate', 'filtered', 'mapped', 'rev'):
                        if base.op == 'rev' and t.op != 'each':
                            return None
                        if t.op == 'each' and base.op == 'filtered':
                            return None
                        base = strip_mut(base.a[0])
                    if mentions(base, lambda y: selff(y, 'labels')):
                        r = row(base)
                        if r != (i * dim, i * dim + dim):
                            raise Wrong('label %d is read from the values %s' % (i, r))
                        if t.op == 'elem':
                            return x
                        if t.op == 'idx':
                            return 1
                        return True
                if t.op == 'is' and strip_mut(t.a[0]).op == 'iternext':
                    k = S._runs(strip_mut(t.a[0]).a[0])
                    return None if k is None else k == (t.a[1] == 'Some')
                return None
            S = Ints(evs, leaf)
            key = '%s of %s at %d, dim %d' % (meth, x, i, dim)
            try:
                got = S.val(val)
                off = [e for e in S.fired(ws) if strip_mut(e.val).a[0] == 'false']
                on = [e for e in S.fired(ws) if strip_mut(e.val).a[0] == 'true']
                wrong = [e for e in off if S.val(strip_mut(e.lval).a[1]) != i]
            except Wrong as err:
                ctx.ob('convert', key, False, b.name, str(err))
                continue
            except Unknown:
                ctx.tri('convert', key, None, b.name)
                continue
            if meth == 'one_hot_to_int':
                want = 1 if x > 0.5 else None
            else:
                want = 1 if x > 0.5 else 0
            if want is None:
                ctx.ob('convert', key, bool(off) and not wrong and not on, b.name, 'a vector with nothing on is not masked')
            else:
                ctx.ob('convert', key, got == want and not off and not on, b.name, 'the label is %s%s, not %s' % (got, ', masked' if off else '', want))
        if meth == 'one_hot_to_int':
            bad = mentions(val, lambda t: t.op in ('rev',) or (t.op == 'taken')) or mentions(val, lambda t: t.op == 'call' and t.a[0].split('::')[-1] in ('last', 'max', 'max_by', 'rposition'))
            ctx.ob('convert', 'one_hot_to_int first', not bad, b.name, 'not the first coordinate that is on: ' + short(val))


class Wrong(Exception):
    pass


# ---- summaries ---------------------------------------------------------------------------

SC = 'SummaryCounter'


@prop('D05')
def counter(ctx):
    """each value added counts once: as its value, as unlabeled, or as an error"""
    OP = ('Summary::add', 'Summary::combine', 'Summary::count')
    b = ctx.body(SC, 'add')
    fr, evs = ctx.frame(b, OP), ctx.events(b, OP)
    v = strip_mut(fr.args[1])
    A = Alg(evs)
    for st in ('value', 'none', 'error'):
        def leaf(t):
            if t.op == 'is':
                x = strip_mut(t.a[0])
                if x is v:
                    return (st != 'error') == (t.a[1] == 'Ok')
                if x.op == 'payload' and strip_mut(x.a[0]) is v and st != 'error':
                    return (st == 'value') == (t.a[1] == 'Some')
            return None
        S = Ints(evs, leaf)
        try:
            ad = S.fired(calls(evs, 'Summary::add'))
            ws = S.fired([e for e in evs if e.kind == 'write'])
        except Unknown:
            ctx.tri('counter', 'add ' + st, None, b.name)
            continue
        up = {}
        ok = True
        for w in ws:
            f = 'nones' if selff(w.lval, 'nones') else 'errors' if selff(w.lval, 'errors') else None
            if f is None:
                ok = None
                continue
            l = lin(w.val)
            up[f] = up.get(f, 0) + l[1] if len(l[0]) == 1 and selff(list(l[0])[0], f) else None
        good = [e for e in ad if selff(e.args[0], 'summary') and okdeep(e.args[1]) is v]
        want = {'value': (1, {}), 'none': (0, {'nones': 1}), 'error': (0, {'errors': 1})}[st]
        r = (len(ad), {k: x for k, x in up.items() if x != 0}) == want
        if len(ad) and len(good) != len(ad):
            r = r and None
        ctx.tri('counter', 'add ' + st, None if ok is None else r, b.name, 'it is counted %d times as a value and %s' % (len(ad), up))
    b = ctx.body(SC, 'combine')
    fr, evs = ctx.frame(b, OP), ctx.events(b, OP)
    other = strip_mut(fr.args[1])
    for f in ('nones', 'errors'):
        sums(ctx, b, fr, evs, f, 'combine', lambda A, s: A.add(A.poly(s), A.poly(sem.field(other, f))))
    cb = calls(evs, 'Summary::combine')
    ok = len(cb) == 1 and uncond(cb[0]) and selff(cb[0].args[0], 'summary') and strip_mut(cb[0].args[1]) is sem.field(other, 'summary')
    ctx.tri('counter', 'combine summary', True if ok else False if len(cb) != 1 or not uncond(cb[0]) else None, b.name, 'the summaries are combined by ' + short(cb))
    b = ctx.body(SC, 'count')
    fr, evs = ctx.frame(b, OP), ctx.events(b, OP)
    A = Alg(evs)
    s = fr.args[0]
    try:
        want = A.add(A.add(A.poly(mk('call', 'Summary::count', (sem.field(s, 'summary'),))), A.poly(sem.field(s, 'nones'))), A.poly(sem.field(s, 'errors')))
        r = A.eq(fr.ret(), want)
    except NoForm:
        r = None
    ctx.tri('counter', 'count', r, b.name, 'the count is ' + short(fr.ret()))
    for f in ('nones', 'errors'):
        b = ctx.body(SC, f)
        v = strip_mut(ctx.frame(b).ret())
        ctx.tri('counter', f, True if selff(v, f) else False if lin_only(v) or (v.op == 'field') else None, b.name, '%s gives %s' % (f, short(v)))


def okdeep(t):
    t = strip_mut(t)
    while t.op in ('payload', 'narrow', 'ok', 'some'):
        t = strip_mut(t.a[0])
    return t


def sums(ctx, b, fr, evs, f, meth, want):
    """the only change of the field is want(algebra, old)"""
    ws = [e for e in evs if e.kind == 'write' and selff(e.lval, f)]
    key = '%s %s' % (meth, f)
    if len(ws) != 1:
        ctx.tri('sums', '%s %s' % (b.name.split('<impl')[0] + key, ''), False if not ws and not any(e.kind == 'write' and mentions(e.lval, lambda x: is_param(x, 0)) and not e.lval.op == 'field' for e in evs) else None, b.name, '%s never changes %s' % (meth, f))
        return
    w = ws[0]
    A = Alg(evs)
    try:
        r = A.eq(w.val, want(A, sem.field(fr.args[0], f)))
    except NoForm:
        r = None
    if r is True and not uncond(w):
        r = False
    ctx.tri('sums', key, r, w, '%s becomes %s' % (f, short(w.val)))


@prop('D05')
def scalars(ctx):
    """float and integer summaries: sum, sum of squares and count"""
    for ty in ('FloatSummary', 'IntSummary'):
        b = ctx.body(ty, 'add')
        fr, evs = ctx.frame(b), ctx.events(b)
        v = fr.args[1]
        sums(ctx, b, fr, evs, 'moment1', ty + '::add', lambda A, s: A.add(A.poly(s), A.poly(v)))
        sums(ctx, b, fr, evs, 'moment2', ty + '::add', lambda A, s: A.add(A.poly(s), A.mul(A.poly(v), A.poly(v))))
        sums(ctx, b, fr, evs, 'count', ty + '::add', lambda A, s: A.add(A.poly(s), A.const(1)))
        b = ctx.body(ty, 'combine')
        fr, evs = ctx.frame(b), ctx.events(b)
        o = fr.args[1]
        for f in ('moment1', 'moment2', 'count'):
            sums(ctx, b, fr, evs, f, ty + '::combine', lambda A, s: A.add(A.poly(s), A.poly(sem.field(o, f))))
    for ty in ('FloatSummary', 'IntSummary', 'VecSummary'):
        b = ctx.body(ty, 'count')
        v = strip_mut(ctx.frame(b).ret())
        ctx.tri('sums', ty + '::count', True if selff(v, 'count') else False if lin_only(v) or v.op == 'field' or len_of(v) is not None else None, b.name, 'the count is ' + short(v))


def coordinate(evs, S, fr, f):
    """what one coordinate of the vector field f becomes in this cell: a term, or None if the vector stays empty"""
    me = sem.field(fr.args[0], f)
    el = sem.elem(me)
    cur = None if S.base(mk('empty', me)) else el
    touched = [e for e in evs if (e.kind == 'call' and e.args and strip_mut(e.args[0]) is me and e.name.split('::')[-1] in GROW + SHRINK + ('fill', 'clone_from', 'copy_from_slice'))
               or (e.kind == 'write' and (strip_mut(e.lval) is me or is_elem(e.lval, lambda s: strip_mut(s) is me)))]
    for e in in_order(touched):
        g = frozenset(frozenset(a for a in c if not loopish(a)) for c in e.guard)
        k = S.guard(g)
        if k is None:
            raise Unknown(e)
        if not k:
            continue
        sq = seqs(e.guard)
        if e.kind == 'call':
            m = e.name.split('::')[-1]
            if sq:
                raise Unknown(e)
            if m in ('extend', 'extend_from_slice', 'append', 'clone_from'):
                x = elem_of(S, e.args[1])
                if cur is not None and m != 'clone_from':
                    raise Wrong('%s grows' % f)
                cur = x
            elif m == 'resize':
                n = len_of(e.args[1])
                if n is None:
                    raise Unknown(e)
                if cur is None and not S.base(mk('empty', strip_mut(n))):
                    cur = strip_mut(e.args[2])
            elif m == 'clear':
                cur = None
            else:
                raise Unknown(e)
            continue
        if strip_mut(e.lval) is me:
            cur = elem_of(S, e.val)
            continue
        if cur is None:
            continue
        if any(S.base(mk('empty', x)) for s in sq for x in parts(s) if x is not me):
            continue
        if any(mentions(s, lambda x: x.op in ('taken', 'stepby', 'filtered')) for s in sq):
            raise Wrong('not every coordinate of %s is updated' % f)
        cur = subst(strip_mut(e.val), {el: cur, strip_mut(e.lval): cur})
    return cur


def parts(s):
    s = strip_mut(s)
    if s.op == 'zip':
        return parts(s.a[0]) + parts(s.a[1])
    if s.op in ('enumerate', 'mapped', 'rev'):
        return parts(s.a[0])
    return [s]


def elem_of(S, t):
    t = strip_mut(t)
    if t.op == 'mapped':
        if any(S.base(mk('empty', x)) for x in parts(t.a[0])):
            return None
        return strip_mut(t.a[1])
    if t.op in ('param', 'field'):
        return None if S.base(mk('empty', t)) else sem.elem(t)
    raise Unknown(t)


@prop('D05')
def vectors(ctx):
    """vector summaries: coordinate sums, sums of squares and count, also from an empty summary"""
    b = ctx.body('VecSummary', 'add')
    fr, evs = ctx.frame(b), ctx.events(b)
    v = strip_mut(fr.args[1])
    for first in (True, False):
        def leaf(t):
            if t.op in ('empty', 'nonempty'):
                x = strip_mut(t.a[0])
                if selff(x, 'moment1') or selff(x, 'moment2'):
                    return first == (t.op == 'empty')
                if x is v:
                    return t.op == 'nonempty'
            n = len_of(t)
            if n is not None:
                n = strip_mut(n)
                if selff(n, 'moment1') or selff(n, 'moment2'):
                    return 0 if first else 3
                if n is v:
                    return 3
            if selff(t, 'count'):
                return 0 if first else 5
            return None
        S = Ints(evs, leaf)
        vector_cell(ctx, b, fr, evs, S, 'VecSummary::add to %s' % ('an empty one' if first else 'a filled one'),
                    {'moment1': (lambda A, s: A.add(s, A.poly(sem.elem(v)))), 'moment2': (lambda A, s: A.add(s, A.mul(A.poly(sem.elem(v)), A.poly(sem.elem(v)))))}, first, (1, None))
    b = ctx.body('VecSummary', 'combine')
    fr, evs = ctx.frame(b), ctx.events(b)
    o = strip_mut(fr.args[1])
    of = lambda t: strip_mut(t).op == 'field' and strip_mut(strip_mut(t).a[0]) is o
    for me, ot in product((True, False), (True, False)):
        def leaf(t):
            if t.op in ('empty', 'nonempty'):
                x = strip_mut(t.a[0])
                if selff(x, 'moment1') or selff(x, 'moment2'):
                    return me == (t.op == 'empty')
                if of(x):
                    return ot == (t.op == 'empty')
            n = len_of(t)
            if n is not None:
                n = strip_mut(n)
                if selff(n, 'moment1') or selff(n, 'moment2'):
                    return 0 if me else 3
                if of(n):
                    return 0 if ot else 3
            if selff(t, 'count'):
                return 0 if me else 5
            if of(t) and strip_mut(t).a[1] == 'count':
                return 0 if ot else 7
            return None
        S = Ints(evs, leaf)
        nm = lambda x: 'empty' if x else 'filled'
        w = {f: ((lambda A, s: s) if ot else (lambda A, s, f=f: A.add(s, A.poly(sem.elem(sem.field(o, f)))))) for f in ('moment1', 'moment2')}
        vector_cell(ctx, b, fr, evs, S, 'VecSummary::combine %s with %s' % (nm(me), nm(ot)), w, me, (0 if ot else 7, ot))


def vector_cell(ctx, b, fr, evs, S, key, want, first, cnt):
    for f in ('moment1', 'moment2'):
        A = Alg(evs)
        try:
            got = coordinate(evs, S, fr, f)
        except Wrong as e:
            ctx.ob('vector', key + ' ' + f, False, b.name, str(e))
            continue
        except Unknown:
            ctx.tri('vector', key + ' ' + f, None, b.name)
            continue
        if cnt[1] and first:
            ctx.ob('vector', key + ' ' + f, got is None, b.name, 'it gets coordinates')
            continue
        if got is None:
            ctx.ob('vector', key + ' ' + f, False, b.name, 'the coordinates are lost')
            continue
        try:
            r = A.eq(got, want[f](A, A.const(0) if first else A.poly(sem.elem(sem.field(fr.args[0], f)))))
        except NoForm:
            r = None
        ctx.tri('vector', key + ' ' + f, r, b.name, 'a coordinate becomes ' + short(got))
    try:
        ws = S.fired([e for e in evs if e.kind == 'write' and selff(e.lval, 'count')])
        n = S.val(sem.field(fr.args[0], 'count'))
        base = n
        for w in ws:
            n += S.val(w.val) - base
    except Unknown:
        ctx.tri('vector', key + ' count', None, b.name)
        return
    ctx.ob('vector', key + ' count', n == base + cnt[0], b.name, 'the count goes from %d to %d' % (base, n))


@prop('D05')
def value_blind(ctx):
    """moments and counts take every value, whatever it is"""
    for ty in ('VecSummary', 'FloatSummary', 'IntSummary'):
        for meth in ('add', 'combine'):
            b = ctx.body(ty, meth)
            fr, evs = ctx.frame(b), ctx.events(b)
            up = [e for e in evs if e.kind == 'write' and any(mentions(e.lval, lambda x, f=f: x is sem.field(fr.args[0], f)) for f in ('moment1', 'moment2', 'count'))]
            o = strip_mut(fr.args[1])

            def value(t):
                t = strip_mut(t)
                if meth == 'add' and ty != 'VecSummary' and t is o:
                    return True
                return t.op in ('elem', 'index') and mentions(t, lambda x: x is o or x is sem.field(fr.args[0], 'moment1') or x is sem.field(fr.args[0], 'moment2'))
            bad = [(e, a) for e in up for c in e.guard for a in c for x in sem.subterms(a) if x.op == 'bin' and x.a[0] in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne') and any(value(y) for y in x.a[1:])]
            ctx.ob('blind', '%s::%s' % (ty, meth), not bad, bad[0][0] if bad else b.name, 'a value is left out unless ' + (short(bad[0][1]) if bad else ''))


@prop('D05')
def categories(ctx):
    """category summaries: one entry per category, holding how often it was added"""
    ty = 'CategorySummary'
    for meth in ('add', 'combine'):
        b = ctx.body(ty, meth)
        fr, evs = ctx.frame(b), ctx.events(b)
        o = strip_mut(fr.args[1])
        items = sem.field(fr.args[0], 'items')
        if meth == 'add':
            is_key = lambda t: strip_mut(t) is o
            amount = lambda A: A.const(1)
        else:
            oi = sem.field(o, 'items')
            is_key = lambda t: strip_mut(t) is sem.field(sem.elem(oi), '0')
            amount = lambda A: A.poly(sem.field(sem.elem(oi), '1'))
        incs = [e for e in evs if e.kind == 'write' and mentions(e.lval, lambda x: x is items) and strip_mut(e.lval).op == 'field']
        if meth == 'combine':
            # taking the other's entries as they are loses one's own
            took = [e for e in evs if e.kind == 'write' and strip_mut(e.lval) is items and strip_mut(e.val) is oi]
            bare = [e for e in took if not any(a.op in ('empty', 'bin') and mentions(a, lambda x: x is items) and not mentions(a, lambda x: x is oi) for a in must_atoms(e.guard))]
            ctx.ob('category', meth + ' keeps its entries', not bare, bare[0] if bare else b.name, 'the entries are replaced by those of the other summary')
        # looking for the entry in a part of the entries only
        cut = [x for e in incs for t in [e.lval] + [a for c in e.guard for a in c] for x in sem.subterms(t)
               if (x.op in ('taken', 'stepby') and mentions(x, lambda y: y is items)) or
               (x.op == 'call' and x.a[0].split('::')[-1] in ('last_mut', 'first_mut', 'last', 'first') and mentions(x.a[1][0], lambda y: y is items))]
        unsorted = [x for e in evs if e.kind == 'call' and e.args and strip_mut(e.args[0]) is items and e.name.split('::')[-1] == 'push' for c in e.guard for a in c for x in sem.subterms(a)
                    if x.op == 'call' and x.a[0].split('::')[-1].startswith('binary_search') and mentions(x.a[1][0], lambda y: y is items)]
        resort = [e for e in evs if e.kind == 'call' and 'sort' in e.name.split('::')[-1]]
        ctx.ob('category', meth + ' looks at every entry', not (cut and len(incs) == 1) and not (unsorted and not resort), incs[0] if incs else b.name, 'an entry of the category is looked for only in ' + short((cut + unsorted)[:1]))
        push = [e for e in evs if e.kind == 'call' and e.args and strip_mut(e.args[0]) is items and e.name.split('::')[-1] in GROW]
        oth = [e for e in evs if e.kind == 'call' and e.args and strip_mut(e.args[0]) is items and e.name.split('::')[-1] in SHRINK and not e.name.split('::')[-1].startswith('sort')]
        if len(incs) != 1 or len(push) != 1 or oth or push[0].name.split('::')[-1] not in ('push',):
            ctx.tri('category', meth + ' updates', False if not incs and len(push) == 1 or (len(incs) == 1 and not push) else None, b.name, 'an entry is never %s' % ('added' if incs else 'increased'))
            continue
        w, q = incs[0], push[0]
        ent = strip_mut(strip_mut(w.lval).a[0])
        A = Alg(evs)
        r = poly_is(A, w.val, A.add(A.poly(w.lval), amount(A)))
        ctx.tri('category', meth + ' increases', r if strip_mut(w.lval).a[1] == '1' else False, w, 'an entry becomes ' + short(w.val))
        # only the entry of that category
        key = sem.field(ent, '0')
        eq = [a for a in must_atoms(w.guard) if a.op == 'bin' and a.a[0] == 'Eq']
        hit = [a for a in eq if any(is_key(x) for x in a.a[1:]) and any(strip_mut(x).op == 'field' and strip_mut(x).a[1] == '0' for x in a.a[1:])]
        found = mentions(ent, lambda x: x.op in ('filtered', 'call', 'iternext') and mentions(x, is_key))
        ne = [a for a in must_atoms(w.guard) if a.op == 'bin' and a.a[0] != 'Eq' and any(is_key(x) for x in a.a[1:])]
        ctx.tri('category', meth + ' the entry of the category', True if hit else None if found else False if ne or is_elem(ent, lambda s: strip_mut(s) is items) else None, w, 'the entry of another category is increased')
        v = strip_mut(q.args[1])
        if v.op == 'agg' and len(v.a[1]) == 2:
            k, n = (x for _, x in v.a[1])
            ctx.tri('category', meth + ' new entry', poly_is(A, n, amount(A)) if is_key(k) else None, q, 'a new entry holds ' + short(v))
        else:
            ctx.tri('category', meth + ' new entry', None, q)

        # exactly one of the two happens
        head = None
        if meth == 'combine':
            lp = [s for s in seqs(q.guard) if mentions(s, lambda x: x is oi)]
            bad = [s for s in lp if mentions(s, lambda x: x.op in ('filtered', 'taken', 'stepby'))]
            ctx.ob('category', meth + ' every entry', not bad, q, 'entries of the other summary are left out: ' + short(bad))
            head = outer_head(fr, q)

        def step(s, e):
            if not isinstance(s, tuple):
                return s
            i, p = s
            if e.kind == 'write' and same_site(e, w):
                i = True
            elif e.kind == 'call' and same_site(e, q):
                if i:
                    return 'twice'
                p = True
            return (i, p)

        def at(f, blk, s):
            if head is not None and (f.body, blk) == head:
                return (False, False) if s in ('start', (True, False), (False, True), (True, True)) else 'none' if s == (False, False) else s
            return s
        if meth == 'combine' and head is None:
            ctx.undecided('combine: no loop over the other entries')
            continue
        ex = Flagged(step, at).run(fr, (False, False) if head is None else 'start')
        if head is None:
            bad = [x for x in ex if x not in ((True, False), (False, True))]
        else:
            bad = [x for x in ex if x in ('twice', 'none') or x == (True, True)]
            cutoff = [x for x in ex if x in ((True, False), (False, True))]
            ctx.ob('category', meth + ' to the end', not cutoff, b.name, 'the other entries are left out after one of them')
        ctx.ob('category', meth + ' exactly once', not bad, b.name, 'a value can be counted %s' % ('not at all' if (False, False) in bad or 'none' in bad else 'under two entries of its category'))
    b = ctx.body(ty, 'count')
    fr, evs = ctx.frame(b), ctx.events(b)
    A = Alg(evs)
    it = sem.field(fr.args[0], 'items')
    try:
        r = A.eq(fr.ret(), A.sum(it, A.poly(sem.field(sem.elem(it), '1'))))
    except NoForm:
        r = None
    ctx.tri('category', 'count', r if not (len_of(fr.ret()) is not None or lin_only(fr.ret())) else False, b.name, 'the count is ' + short(fr.ret()))


def same_site(a, b):
    return a.kind == b.kind and a.chain[-1] == b.chain[-1] and a.span == b.span if hasattr(a, 'span') else a.chain[-1] == b.chain[-1]


def outer_head(fr, e):
    """header block of the outermost loop of the function around the event"""
    blk = e.chain[0][1]
    best = None
    for a, h in fr.backedges():
        # natural loop of the back edge
        body = {h, a}
        work = [a]
        while work:
            x = work.pop()
            if x == h:
                continue
            for p in fr.cfg.pred.get(x, []):
                if p not in body:
                    body.add(p)
                    work.append(p)
        if blk in body and (best is None or len(body) > best[1]):
            best = (h, len(body))
    return (fr.body, best[0]) if best else None


@prop('D05')
def strings(ctx):
    """string summaries: how often each string was added"""
    ty = 'StringSummary'
    for meth in ('add', 'combine'):
        b = ctx.body(ty, meth)
        fr, evs = ctx.frame(b), ctx.events(b)
        o = strip_mut(fr.args[1])
        items = sem.field(fr.args[0], 'items')
        if meth == 'add':
            is_key, amount, nt = (lambda t: strip_mut(t) is o), (lambda A: A.const(1)), None
        else:
            oi = sem.field(o, 'items')
            is_key = lambda t: strip_mut(t) is sem.field(sem.elem(oi), '0')
            nt = sem.field(sem.elem(oi), '1')
            amount = lambda A: A.poly(nt)
        spelt = [x for e in evs if e.kind == 'call' and e.args and mentions(e.args[0], lambda y: y is items) and e.name.split('::')[-1] in ('entry', 'insert', 'get', 'get_mut') and len(e.args) > 1
                 for x in sem.subterms(e.args[1]) if x.op == 'call' and x.a[0].split('::')[-1] in ('trim', 'trim_start', 'trim_end', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'trim_matches', 'replace')]
        ctx.ob('string', meth + ' key', not spelt, b.name, 'the string counted is not the one given: ' + short(spelt[:1]))
        for has in (True, False):
            def leaf(t):
                if t.op == 'is' and strip_mut(t.a[0]).op in ('getopt', 'call') and mentions(t.a[0], lambda x: x is items):
                    if t.a[1] in ('Some', 'None'):
                        return has == (t.a[1] == 'Some')
                    if t.a[1] in ('Occupied', 'Vacant'):
                        return has == (t.a[1] == 'Occupied')
                if t.op == 'call' and t.a[0].split('::')[-1] == 'contains_key' and strip_mut(t.a[1][0]) is items:
                    return has
                if t.op == 'each':
                    return True
                return None
            S = Ints(evs, leaf)
            key = '%s a %s string' % (meth, 'known' if has else 'new')
            try:
                ev = S.fired([e for e in evs if (e.kind == 'write' and mentions(e.lval, lambda x: x is items)) or (e.kind == 'call' and e.name.split('::')[-1] in ('insert', 'remove', 'clear', 'and_modify', 'or_insert_with', 'retain') and e.args and mentions(e.args[0], lambda x: x is items))])
            except Unknown:
                ctx.tri('string', key, None, b.name)
                continue
            A = Alg(evs)
            r = None
            if len(ev) == 1 and ev[0].kind == 'write':
                e = ev[0]
                lv = strip_mut(e.lval)
                keyed = mentions(lv, is_key)
                init = None
                if lv.op == 'call' and lv.a[0].split('::')[-1] == 'or_insert':
                    init = intval(lv.a[1][1])
                elif lv.op == 'call' and lv.a[0].split('::')[-1] == 'or_default':
                    init = 0
                elif has:
                    init = 0
                r = poly_is(A, e.val, A.add(A.poly(lv), amount(A)))
                if r and not has and init is not None and init != 0:
                    r = False
                if r and init is None:
                    r = None
                if r and not keyed:
                    r = None
            elif len(ev) == 1 and ev[0].name.split('::')[-1] == 'insert' and not has:
                e = ev[0]
                if len(e.args) == 3 and is_key(e.args[1]):
                    r = poly_is(A, e.args[2], amount(A))
            elif not ev:
                r = False
            ctx.tri('string', key, r, b.name, 'the count of the string changes by ' + short(ev))
        for e in evs:
            if meth == 'combine' and e.kind == 'write':
                bad = [s for s in seqs(e.guard) if mentions(s, lambda x: x.op in ('filtered', 'taken', 'stepby'))]
                ctx.ob('string', 'combine every entry', not bad, e, 'entries of the other summary are left out: ' + short(bad))
    b = ctx.body(ty, 'count')
    fr, evs = ctx.frame(b), ctx.events(b)
    it = sem.field(fr.args[0], 'items')
    A = Alg(evs)
    r = None
    for s, v in ((mk('call', 'HashMap::values', (it,)), None), (it, '1')):
        try:
            el = sem.elem(s) if v is None else sem.field(sem.elem(s), v)
            r = A.eq(fr.ret(), A.sum(s, A.poly(el)))
        except NoForm:
            r = None
        if r:
            break
    ctx.tri('string', 'count', True if r else False if len_of(fr.ret()) is not None or lin_only(fr.ret()) else None, b.name, 'the count is ' + short(fr.ret()))
