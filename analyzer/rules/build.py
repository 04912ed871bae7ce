"""T04, T10, T09: how the builder splits, seeds and finishes."""
from itertools import product
from rules import prop
from rules.persist import field_of
from rules.tree import success, BUILD
from rulelib import *
import math
import sem

REMOVE = ('Vec::remove', 'Vec::swap_remove', 'Vec::pop')


def taken_out(t, seq, evs):
    """the event that takes the element t out of the vector `seq`; None if there is none, False if t is not understood"""
    t = strip(t)
    if t.op == 'call' and t.a[0] in REMOVE and seq(t.a[1][0]):
        return [e for e in evs if e.kind == 'call' and e.name == t.a[0] and seq(e.args[0])][0]
    if t.op == 'index' and seq(t.a[0]):
        for e in evs:
            if e.kind == 'call' and e.name in REMOVE[:2] and seq(e.args[0]) and strip_mut(e.args[1]) is strip_mut(t.a[1]):
                return e
        ch = [e.name.split('::')[-1] for e in evs if e.kind == 'call' and e.args and seq(e.args[0]) and e.name.split('::')[-1] in SHRINK]
        if ch and set(ch) <= {'truncate', 'dedup', 'pop', 'clear'}:
            return None
        if any(e.kind == 'call' and e.name.split('::')[-1] in ('retain', 'drain', 'split_off', 'truncate', 'dedup') and seq(e.args[0]) for e in evs if e.kind == 'call' and e.args):
            return False
        return None
    if t.op == 'call' and t.a[0].split('::')[-1] in ('last', 'first', 'get', 'choose') and seq(t.a[1][0]):
        if any(e.kind == 'call' and e.args and e.name.split('::')[-1] in SHRINK and seq(e.args[0]) for e in evs):
            return False
        return None
    return False


def content(sim, t):
    try:
        return sim.content(t)
    except Unknown:
        return None


def dist_call(t):
    t = strip(t)
    return t if is_call(t, 'distances_to_point_index') else None


@prop('T04')
def first_partition(ctx):
    """every covered point goes to exactly one side"""
    def check(meth, b, evs, close, far, cov, isd, rad):
        parts = (('close', field_of(close, 'coverage'), True, cov), ('close distances', field_of(close, 'dists'), True, isd), ('far', far, False, cov))
        for nm, t, want, src in parts:
            for d, c in ((0.5, 'closer'), (1.0, 'at the radius'), (2.0, 'further')):
                def leaf(t, d=d):
                    if is_elem(t, isd):
                        return d
                    if rad(t):
                        return 1.0
                    if t.op == 'each' and (cov(t.a[0]) or isd(t.a[0])):
                        return True
                    return None
                s = Sim(evs, leaf)
                v = content(s, t) if t is not None else None
                if v is None:
                    ctx.undecided('%s %s' % (meth, nm))
                    break
                ok = (len(v) == 1 and is_elem(s.term(v[0]), src)) if (d < 1) == want else not v
                ctx.ob('partition', '%s %s, point %s' % (meth, nm, c), ok, b.name, 'a point %s than/at the radius %s the %s part: %s' % (c, 'is missing from' if (d < 1) == want else 'is put into', nm, [short(x) for x in v]))
    b = ctx.body('FirstCoveredData', 'split')
    evs = ctx.events(b)
    r = success(ctx.frame(b))
    if len(r) != 1:
        raise Missing('FirstCoveredData::split result')
    close, far = tup(r[0], 0), tup(r[0], 1)
    check('split', b, evs, close, field_of(far, 'coverage'), lambda t: selff(t, 'coverage'), lambda t: selff(t, 'dists'), par(1))
    c = field_of(close, 'center_index')
    ctx.ob('centre', 'split', c is not None and selff(c, 'center_index'), b.name, 'the nested part has another centre')

    b = ctx.body('UncoveredData', 'pick_center')
    evs = ctx.events(b)
    r = success(ctx.frame(b))
    if len(r) != 1:
        raise Missing('UncoveredData::pick_center result')
    cen = field_of(r[0], 'center_index')
    cov = lambda t: selff(t, 'coverage')
    out = taken_out(cen, cov, evs) if cen is not None else False
    if out is False:
        ctx.undecided('pick_center: how the centre is chosen ' + short(cen))
    else:
        ctx.ob('centre-removed', 'pick_center', out is not None, b.name, 'the new centre stays in the list of uncovered points')
        ds = [e for e in evs if e.kind == 'call' and e.name.endswith('distances_to_point_index')]
        ok = len(ds) == 1 and strip(ds[0].args[1]) is strip(cen) and cov(ds[0].args[2]) and (out is None or event_before(out, ds[0]))
        ctx.ob('centre-dists', 'pick_center', ok, ds[0] if ds else b.name, 'the distances are not those from the new centre to the remaining points')
        isd = lambda t: dist_call(t) is not None
        w = [e for e in evs if e.kind == 'write' and selff(e.lval, 'coverage')]
        far = w[0].val if len(w) == 1 else None
        if far is None:
            ctx.undecided('pick_center: remaining points')
        else:
            ctx.ob('remaining', 'pick_center', strip_noise(w[0].guard) == TRUE, w[0], 'the remaining points are not always updated')
            check('pick_center', b, evs, r[0], far, cov, isd, par(1))
        for e in evs:
            if e.kind == 'call' and e.name.split('::')[-1] == 'gen_range':
                g = strip_mut(e.args[1])
                if g.op == 'agg' and g.a[0].endswith('Range'):
                    d = dict(g.a[1])
                    a, z = lin(d['start']), lin(d['end'])
                    ok = a == ({}, 0) and (z[1] <= 0 if not z[0] else len(z[0]) == 1 and cov(len_of(list(z[0])[0]) or mk('never')) and z[1] == 0)
                    ctx.ob('choice', 'pick_center', ok, e, 'the new centre is drawn from %s: some uncovered points cannot be chosen or the index is out of range' % short(g))
    for o, f, d in (('FirstCoveredData', 'coverage', 'dists'), ('NearestCoveredData', 'point_indexes', 'center_dists')):
        b = ctx.body(o, 'new')
        evs = ctx.events(b)
        r = success(ctx.frame(b))
        if len(r) != 1:
            raise Missing(o + '::new')
        cen, lst, ds = field_of(r[0], 'center_index'), field_of(r[0], f), field_of(r[0], d)
        ref = lambda t: is_call(t, 'reference_indexes')
        x = taken_out(cen, ref, evs)
        if x is False or lst is None or not ref(lst):
            ctx.undecided(o + '::new ' + short(lst))
        else:
            ctx.ob('centre-removed', o + '::new', x is not None, b.name, 'the root centre is also one of the points it covers')
            dc = [e for e in evs if e.kind == 'call' and e.name.endswith('distances_to_point_index')]
            k = dist_call(ds)
            ctx.ob('centre-dists', o + '::new', len(dc) == 1 and k is not None and strip(k.a[1][1]) is strip(cen) and ref(k.a[1][2]) and (x is None or event_before(x, dc[0])), b.name, 'the distances are not those from the root centre to the points it covers')
            bad = [e for e in evs if e.kind == 'call' and e.args and ref(e.args[0]) and e.name.split('::')[-1] in SHRINK + GROW and e is not x]
            ctx.ob('all-points', o + '::new', not bad, bad[0] if bad else b.name, 'the root does not cover all points')
        b = ctx.body(o, 'into_indexes')
        r = ctx.frame(b).ret()
        ctx.ob('into-indexes', o, selff(r, f), b.name, 'into_indexes is not the covered points: ' + short(r))
        b = ctx.body(o, 'len')
        r = ctx.frame(b).ret()
        for n in (0, 1, 5):
            try:
                v = Model(lambda t: n if len_of(t) is not None and (selff(len_of(t), f) or selff(len_of(t), d)) else None).val(r)
            except Unknown:
                v = None
            ctx.ob('len', '%s %d' % (o, n), v == n + 1, b.name, 'a set of a centre and %d points has length %s' % (n, v))
        b = ctx.body(o, 'max_distance')
        r = ctx.frame(b).ret()
        loops = [v for g, v in alts(r) if mentions(v, lambda x: x.op == 'rec')]
        evs = ctx.events(b)
        cut = [x for e in evs if e.kind == 'call' for a in e.args for x in subterms(a) if x.op in ('taken', 'stepby') and selff(x.a[0], d)]
        if cut:
            ctx.tri('radius', o + ' walk', False if any(x.op == 'stepby' or x.a[1] == 'take' for x in cut) else None, b.name, 'the radius is the largest of some of the distances: ' + short(cut[0]))
        ends = [v for g, v in alts(r) if strip(v).op == 'call' and strip(v).a[0].split('::')[-1] in ('last', 'first') and selff(strip(v).a[1][0], d)]
        if ends and not loops:
            ctx.tri('radius', o + ' one', False if not any(e.kind == 'call' and 'sort' in e.name for e in evs) else None, b.name, 'the radius is one of the distances, not the largest: ' + short(ends[0]))
        elif len(loops) != 1 or strip_mut(loops[0]).op not in ('bin', 'call'):
            ctx.undecided(o + '::max_distance ' + short(r))
        else:
            for acc, e in ((3.0, 5.0), (5.0, 3.0)):
                try:
                    v = Model(lambda t: acc if t.op == 'rec' else e if is_elem(t, lambda x: selff(x, d)) else None).val(loops[0])
                except Unknown:
                    v = None
                ctx.tri('radius', '%s %s' % (o, acc < e), None if v is None else v == 5.0, b.name, 'the radius is not the largest distance')
    b = ctx.body('UncoveredData', 'len')
    r = ctx.frame(b).ret()
    ctx.ob('len', 'UncoveredData', len_of(r) is not None and selff(len_of(r), 'coverage'), b.name, 'the number of uncovered points is ' + short(r))


@prop('T04')
def nearest_cover(ctx):
    """centres are added until every point is within the radius of one"""
    b = ctx.body('NearestCoveredData', 'cover_thyself')
    fr = ctx.frame(b)
    evs = ctx.events(b)
    cp = [e for e in evs if e.kind == 'call' and e.name == 'Vec::push' and selff(e.args[0], 'centers')]
    dp = [e for e in evs if e.kind == 'call' and e.name == 'Vec::push' and selff(e.args[0], 'dists')]
    ctx.ob('centres', 'pushed together', len(cp) == 1 and len(dp) == 1 and cp[0].guard == dp[0].guard, cp[0] if cp else b.name, 'a centre and its distances are not recorded together')
    if len(cp) != 1 or len(dp) != 1:
        return
    dc = dist_call(dp[0].args[1])
    ctx.ob('centres', 'distances', dc is not None and strip(dc.a[1][1]) is strip(cp[0].args[1]) and selff(dc.a[1][2], 'point_indexes'), dp[0], 'the distances recorded for a centre are not those from it to the points of the node')

    def leaf_for(c, d):
        def leaf(t):
            if is_elem(t, lambda x: selff(x, 'center_dists')):
                return c
            if is_elem(t, lambda x: dist_call(x) is not None):
                return d
            if is_param(t, 1):
                return 1.0
            if t.op == 'each' and (selff(t.a[0], 'center_dists') or selff(t.a[0], 'point_indexes') or dist_call(t.a[0]) is not None):
                return True
            return None
        return leaf
    for c in (0.5, 1.0, 2.0):
        s = Sim(evs, leaf_for(c, 2.0))
        k = s.guard(cp[0].guard)
        ctx.tri('covered', 'loop entered, distance %s radius 1' % c, None if k is None else k == (c >= 1), cp[0], 'a point at distance %s of a centre with radius 1 %s another centre' % (c, 'does not get' if c >= 1 else 'still gets'))
    def mixed(t):
        if t.op == 'call' and t.a[0] in ('Iterator::any', 'Iterator::all') and len(t.a[1]) == 2:
            vs = [bool(Sim(evs, leaf_for(c, 2.0)).val(t.a[1][1])) for c in (0.5, 2.0)]
            return any(vs) if t.a[0].endswith('any') else all(vs)
        return None
    k = Sim(evs, mixed).guard(cp[0].guard)
    ctx.tri('covered', 'one point covered, another not', k, cp[0], 'no further centre is added although a point is uncovered')
    ctx.ob('covered', 'repeats', bool(cycle_of(fr, cp[0].chain[0][1])) if len(cp[0].chain) == 1 else True, cp[0], 'at most one centre is added, whatever stays uncovered')
    for x, y, g in loop_exits(fr, lambda e: e.kind == 'call' and e.name == 'Vec::push' and selff(e.args[0], 'centers')):
        if all(any(a.op == 'try' and a.a[1] == 'err' for a in cl) for cl in g):
            continue
        k = Sim(evs, leaf_for(2.0, 2.0)).guard(g)
        ctx.tri('covered', 'exit', None if k is None else not k, b.name, 'the search for centres can stop while a point is uncovered')
    cen = strip(cp[0].args[1])
    if cen.op == 'call' and cen.a[0].endswith('choose'):
        seq = cen.a[1][0]
    elif cen.op == 'index':
        seq = cen.a[0]
    else:
        seq = None
    if seq is None:
        ctx.undecided('cover_thyself: choice of the centre ' + short(cen))
    else:
        for c in (0.5, 1.0, 2.0):
            s = Sim(evs, leaf_for(c, 2.0))
            v = content(s, seq)
            ok = None if v is None else (len(v) == 1 and is_elem(s.term(v[0]), lambda x: selff(x, 'point_indexes'))) if c >= 1 else not v
            ctx.tri('centre-choice', 'distance %s radius 1' % c, ok, cp[0], 'a new centre is not drawn from exactly the uncovered points: a covered point may be chosen, or an uncovered one never')
    ws = [e for e in evs if e.kind == 'write' and mentions(e.val, lambda x: is_elem(x, lambda y: dist_call(y) is not None))
          or e.kind == 'write' and any(mentions(a, lambda x: is_elem(x, lambda y: dist_call(y) is not None)) for cl in e.guard for a in cl)]
    if not ws:
        ctx.undecided('cover_thyself: marking')
    else:
        for c, d in product((0.5, 2.0), (0.5, 1.0, 2.0)):
            s = Sim(evs, lambda t, f=leaf_for(c, d): mixed(t) if mixed(t) is not None else f(t))
            new, unk = c < 1, False
            try:
                for e in ws:
                    k = s.guard(e.guard)
                    if k is None:
                        unk = True
                    elif k:
                        new = bool(s.val(e.val))
            except Unknown:
                unk = True
            ctx.tri('marking', 'old %s new centre at %s' % (c < 1, d), None if unk else new == (c < 1 or d < 1), ws[0], 'a point at distance %s of the new centre (radius 1) ends up %s' % (d, 'covered' if new else 'uncovered'))


@prop('T04')
def nearest_assign(ctx):
    """every point joins exactly one part: that of its nearest centre"""
    b = ctx.body('NearestCoveredData', 'assign_to_nearest')
    evs = ctx.events(b)
    r = strip_mut(ctx.frame(b).ret())
    nest, kids = tup(r, 0), tup(r, 1)
    np, nd = field_of(nest, 'point_indexes'), field_of(nest, 'center_dists')
    nc = field_of(nest, 'center_index')
    ctx.ob('centre', 'nested', nc is not None and selff(nc, 'center_index'), b.name, 'the nested part has another centre')
    kc = field_of(sem.elem(kids), 'center_index')
    ctx.ob('centre', 'parts', kc is not None and is_elem(kc, lambda t: selff(t, 'centers')), b.name, 'the parts are not centred at the chosen centres')

    def target(t):
        t = strip_mut(t)
        if np is not None and t is strip_mut(np):
            return 'nested', 'point_indexes', None
        if nd is not None and t is strip_mut(nd):
            return 'nested', 'center_dists', None
        if t.op == 'field' and strip_mut(t.a[0]).op == 'index':
            x = strip_mut(t.a[0])
            return 'part', t.a[1], x.a[1]
        if t.op == 'new':
            e = sem.elem(kids)
            for f in ('point_indexes', 'center_dists'):
                v = field_of(e, f)
                if v is not None and strip_mut(v) is t:
                    return 'part?', f, None
        return None
    ps = []
    for e in evs:
        if e.kind == 'call' and e.name == 'Vec::push':
            tg = target(e.args[0])
            if tg is None or tg[0] == 'part?':
                # index(mapped(..)) of an aggregate resolves to the vector of the aggregate
                x = strip_mut(e.args[0])
                if x.op == 'new' and tg is not None:
                    ps.append((e, 'part', tg[1], None))
                continue
            ps.append((e,) + tg)
    mb = [e for e in evs if e.kind == 'call' and e.name == 'Iterator::min_by']
    other = lambda t: strip_mut(t).op == 'index' and is_elem(strip_mut(t).a[0], lambda x: selff(x, 'dists')) and strip_mut(strip_mut(t).a[1]).op in ('idx', 'rangeidx')
    at = lambda t: strip_mut(t).op in ('idx', 'rangeidx') and mentions(strip_mut(t).a[0], lambda x: selff(x, 'dists') or selff(x, 'centers')) and not other(t)
    MB, held = None, {}
    if len(mb) != 1:
        for e in evs:
            if e.kind == 'call' and e.name in ('Iterator::max_by',):
                ctx.ob('nearest', 'selection', False, e, 'points are given to the furthest centre')
            if e.kind == 'call' and e.name in ('Iterator::find', 'Iterator::position', 'Iterator::rfind'):
                p = [strip_mut(x.a[1][1]) for y in evs if y.kind == 'call' for a in y.args for x in subterms(a) if x.op == 'call' and x.a[0] == e.name]
                if p and all(x.op == 'bin' and x.a[0] in ('Lt', 'Le', 'Gt', 'Ge') for x in p) and mentions(e.args[0], lambda x: selff(x, 'dists')):
                    ctx.ob('nearest', 'selection', False, e, 'points are given to the first centre that is near enough')
        v, e, why = smallest_loop(evs, other, at)
        ctx.tri('nearest', 'loop', v, e or b.name, 'points are not given to their nearest centre: ' + why)
        if v is not True:
            return
        for e in evs:
            if e.kind == 'set' and e.lval.op == 'var' and (other(e.val) or at(e.val)):
                held[e.lval.a[1]] = 'd' if other(e.val) else 'i'
        if sorted(held.values()) != ['d', 'i']:
            ctx.undecided('assign_to_nearest: selection')
            return
    else:
        seq = strip_mut(mb[0].args[0])
        v = sem.elem(seq)
        okseq = seq.op == 'mapped' and strip_mut(seq.a[0]).op == 'enumerate' and selff(strip_mut(seq.a[0]).a[0], 'dists')
        if okseq and v.op == 'agg' and len(v.a[1]) == 2:
            k, d = strip_mut(v.a[1][0][1]), strip_mut(v.a[1][1][1])
            okseq = k.op == 'idx' and d.op == 'index' and is_elem(d.a[0], lambda t: selff(t, 'dists')) and strip_mut(d.a[1]).op == 'idx' and selff(strip_mut(d.a[1]).a[0], 'point_indexes')
        ctx.tri('nearest', 'candidates', True if okseq else None, mb[0], 'candidates ' + short(seq))
        dr, key = compares(mb[0].ret.a[1][1] if mb[0].ret.op == 'call' else mb[0].ret)
        ctx.tri('nearest', 'order', None if dr == 0 else dr == 1 and strip_mut(key).op == 'index', mb[0], 'points are not given to their nearest centre')
        MB = mb[0].ret
    if not ps:
        ctx.undecided('assign_to_nearest: selection')
        return

    def near(t):
        """the distance ('d') or position ('i') of the nearest other centre"""
        if MB is not None:
            return {'1': 'd', '0': 'i'}.get(t.a[1]) if t.op == 'field' and strip(t.a[0]) is strip(MB) else None
        if t.op == 'rec':
            return held.get(t.a[1])
        if t.op == 'phi':
            for x in variants(t):
                if x.op == 'rec' and x.a[1] in held:
                    return held[x.a[1]]
        return None
    for c, has, isc in product((4.0, 5.0, 6.0), (True, False), (True, False)):
        if not has and isc:
            continue

        def leaf(t):
            if MB is not None and t is MB:
                return ('Some', ('pair',)) if has else 'None'
            if near(t) is not None:
                return (5.0 if has else float('inf')) if near(t) == 'd' else 11 if has else 0
            if is_elem(t, lambda x: selff(x, 'center_dists')):
                return c
            if is_elem(t, lambda x: selff(x, 'point_indexes')):
                return 7
            if selff(t, 'center_index'):
                return 3
            if t.op in ('elem', 'index') and selff(t.a[0], 'centers') or t.op == 'field' and t.a[1] == 'center_index' and strip_mut(t.a[0]).op == 'index' and strip_mut(strip_mut(t.a[0]).a[0]) is strip_mut(kids):
                return 7 if isc else 8
            if t.op == 'each' and selff(t.a[0], 'point_indexes'):
                return True
            if t.op == 'each' and selff(t.a[0], 'centers'):
                return True
            if t.op == 'each' and selff(t.a[0], 'center_dists'):
                return True
            return None
        s = Sim(evs, leaf)
        got, unk = [], False
        for e, who, f, ix in ps:
            k = s.guard(e.guard)
            if k is None:
                unk = True
            elif k:
                got.append((who, f, e))
        key = 'own centre %s the nearest other%s%s' % ('nearer than' if c < 5 else 'as far as' if c == 5 else 'further than', '' if has else ' (there is none)', ', point is that centre' if isc else '')
        if unk:
            ctx.undecided('assign_to_nearest ' + key)
            continue
        pts = [w for w, f, e in got if f == 'point_indexes']
        dss = [w for w, f, e in got if f == 'center_dists']
        if isc and c > 4:
            ok = not [w for w in pts if w == 'part']
            want = 'no part (it is the centre of one)'
            ok = ok and not pts
        elif c < 5 or not has:
            ok = pts == ['nested']
            want = 'the nested part'
        elif c == 5:
            ok = len(pts) == 1
            want = 'one part'
        else:
            ok = pts == ['part']
            want = 'the part of the nearest centre'
        ctx.ob('assign', key, ok, b.name, 'the point is put into %s instead of %s' % (pts, want))
        ctx.ob('assign', key + ' distance', sorted(pts) == sorted(dss), b.name, 'points and distances get out of step')
        for w, f, e in got:
            try:
                x = s.val(e.args[1])
            except Unknown:
                continue
            want = 7 if f == 'point_indexes' else (c if w == 'nested' else 5.0)
            ctx.ob('assign', '%s %s %s' % (key, w, f), x == want, e, 'what is stored in the part is not the point and its distance to the centre of the part')
    for e in evs:
        if e.kind == 'call' and e.name in ('Index::index', 'IndexMut::index_mut') and e.args and strip_mut(e.args[0]) is strip_mut(kids):
            s = Sim(evs, lambda t: ('Some', ('pair',)) if MB is not None and t is MB else 20 if len_of(t) is not None else 11 if near(t) == 'i' else None)
            try:
                x = s.val(e.args[1])
            except Unknown:
                x = None
            ctx.tri('assign', 'part index', None if x is None else x == 11, e, 'the point joins the part of another centre')


NODES = ('NearestCoveredData::split', 'FirstCoveredData::split', 'UncoveredData::pick_center', 'UncoveredData::len', 'CoverNode::insert_singletons', 'CoverNode::insert_singleton',
         'CoverNode::insert_child', 'CoverNode::insert_nested_child', 'CoverNode::remove_children', 'CoveredData::len', 'CoveredData::max_distance', 'CoveredData::center_index',
         'CoveredData::into_indexes', 'NearestCoveredData::len', 'FirstCoveredData::len', 'CoverNode::new', 'CoverNode::set_radius', 'BuilderNode::split_nearest', 'BuilderNode::split_first')


def effects(ctx, meth, is_part, is_nested, part_runs):
    """cells of split_first / split_nearest: what happens to the nested part and to one other part"""
    b = ctx.body('BuilderNode', meth)
    evs = ctx.events(b, NODES)
    r = success(ctx.frame(b, NODES))
    if len(r) != 1:
        raise Missing(meth + ': result')
    nn = strip_mut(r[0])

    def args(e, n):
        return [sim.term(x) for x in e.args[:n]]
    for L, U, NL, some, lc in product((1, 2), (True, False), (1, 2), (True, False), (0, 9)):
        def leaf(t):
            if isf(t, 'leaf_cutoff'):
                return lc
            n = len_of(t)
            if n is not None:
                n = strip_mut(n)
                if is_nested(n):
                    return NL
                if is_part(n):
                    return L
            if isf(t, 'use_singletons'):
                return U
            return part_runs(t, some)
        sim = Sim(evs, leaf)
        key = '%s singletons=%s nested=%d cutoff=%d %s' % (meth, U, NL, lc, 'part of %d' % L if some else 'no other part')
        if not some and L == 2:
            continue
        try:
            rel = [e for e in evs if e.kind == 'call' and (e.name.startswith('CoverNode::insert') or e.name.startswith('AtomicUsize::fetch') or (e.name.split('::')[-1] in ('push', 'extend') and strip_mut(e.args[0]) is nn))]
            got = sim.fired(rel)
            new = sim.content(nn)
        except Unknown as u:
            ctx.undecided('%s: %s' % (key, short(u)))
            continue
        si = [args(e, 2) for e in got if e.name == 'CoverNode::insert_singleton']
        ch = [args(e, 3) for e in got if e.name == 'CoverNode::insert_child']
        ne = [args(e, 3) for e in got if e.name == 'CoverNode::insert_nested_child']
        new = [sim.term(x) for x in new]

        def covers(x, p):
            c = field_of(x, 'covered')
            return c is not None and mentions(strip_mut(c), lambda y: p(y)) and c.op == 'agg' and p(strip_mut(c.a[1][0][1]))
        pn = [x for x in new if covers(x, is_part)]
        nn_ = [x for x in new if covers(x, is_nested)]
        single = L == 1 and U
        bulk = [e for e in got if e.name == 'CoverNode::insert_singletons']
        if bulk and single:
            ctx.undecided(key + ': singletons stored in bulk')
            continue
        ctx.ob('part', key + ': no bulk', not bulk, bulk[0] if bulk else b.name, 'the points of a part are stored as singletons of the node')
        if some and single:
            ok = len(si) == 1 and strip_mut(si[0][1]).op == 'field' and si[0][1].a[1] == 'center_index' and is_part(strip_mut(si[0][1].a[0]))
            ctx.ob('part', key + ': singleton', ok, b.name, 'a part of one point is not stored as a singleton of the node: %d singletons' % len(si))
            ctx.ob('part', key + ': only a singleton', not ch and not pn, b.name, 'a part of one point becomes a child as well')
        elif some:
            ok = len(ch) == 1
            if ok:
                ad, n = ch[0][1], ch[0][2]
                s0, c0 = tup(ad, 0), tup(ad, 1)
                ok = is_param(s0, 3) and c0.op == 'field' and c0.a[1] == 'center_index' and is_part(strip_mut(c0.a[0])) and len_of(n) is not None and is_part(strip_mut(len_of(n)))
            ctx.ob('part', key + ': child', ok, b.name, 'a part is not recorded as a child under (split scale, its centre) with its size: ' + short([x[1:] for x in ch]))
            ok = len(pn) == 1
            if ok:
                pa, sc = field_of(pn[0], 'parent_address'), field_of(pn[0], 'scale_index')
                ok = pa is not None and strip_mut(pa).op == 'some' and is_param(payload(pa), 1) and sc is not None and is_param(sc, 3)
            ctx.ob('part', key + ': built', ok, b.name, 'a child is not queued to be built at the split scale under this node: %d' % len(pn))
            ctx.ob('part', key + ': no singleton', not si, b.name, 'the points of a child are also singletons')
        else:
            ctx.ob('part', key + ': nothing else', not si and not ch and not pn, b.name, 'children without a part')
        must = NL == 2 or (some and not single) or not U
        ok = len(ne) == len(nn_) and len(ne) <= 1 and (len(ne) == 1 or not must)
        if ok and ne:
            ok = is_param(ne[0][1], 3) and len_of(ne[0][2]) is not None and is_nested(strip_mut(len_of(ne[0][2])))
            pa, sc = field_of(nn_[0], 'parent_address'), field_of(nn_[0], 'scale_index')
            ok = ok and pa is not None and strip_mut(pa).op == 'some' and is_param(payload(pa), 1) and sc is not None and is_param(sc, 3)
        ctx.ob('nested', key, ok, b.name, 'the nested child is recorded %d times and built %d times (expected %s), at the split scale with its size' % (len(ne), len(nn_), 1 if must else 'both or none'))
        # outstanding work
        tot, unk = 0, False
        for e in got:
            if e.name.startswith('AtomicUsize::fetch'):
                try:
                    tot += sim.val(e.args[1]) * (1 if e.name.endswith('fetch_add') else -1)
                except Unknown:
                    unk = True
        ctx.tri('outstanding', key, None if unk else tot == len(new), b.name, '%d nodes are queued but the number of outstanding nodes grows by %d' % (len(new), tot))
    a = [e for e in evs if e.kind == 'call' and e.name == 'CoverNode::insert_nested_child']
    c = [e for e in evs if e.kind == 'call' and e.name == 'CoverNode::insert_child']
    ctx.ob('nested', meth + ' first', all(not event_may_precede(y, x) for x in a for y in c), c[0] if c else b.name, 'a child is inserted before the nested one')
    return b, evs


@prop('T04')
def split_nearest(ctx):
    """parts become children, singletons or the nested child, each exactly once"""
    sp = lambda t: is_call(t, 'NearestCoveredData::split')
    nested = lambda t: t.op == 'field' and t.a[1] == '0' and sp(t.a[0])
    parts = lambda t: t.op == 'field' and t.a[1] == '1' and sp(t.a[0])
    part = lambda t: is_elem(t, parts)

    def runs(t, some):
        if t.op == 'each' and parts(strip_mut(t.a[0])):
            return some
        if t.op in ('empty', 'nonempty') and parts(strip_mut(t.a[0])):
            return (t.op == 'nonempty') == some
        return None
    b, evs = effects(ctx, 'split_nearest', part, nested, runs)
    c = [e for e in evs if e.kind == 'call' and e.name == 'NearestCoveredData::split']
    ok = len(c) == 1 and is_param(c[0].args[0], 2) and radius_ok(c[0].args[1]) and isf(c[0].args[2], 'point_cloud')
    ctx.ob('split-args', 'split_nearest', ok, c[0] if c else b.name, 'the covered points are not split at the radius base^split_scale')


def radius_ok(t):
    t = strip_mut(t)
    return t.op == 'call' and t.a[0].split('::')[-1] in ('powi',) and isf(t.a[1][0], 'scale_base') and is_param(t.a[1][1], 3)


@prop('T04')
def split_first(ctx):
    sp = lambda t: is_call(t, 'FirstCoveredData::split')
    nested = lambda t: t.op == 'field' and t.a[1] == '0' and sp(t.a[0])
    far = lambda t: t.op == 'field' and t.a[1] == '1' and sp(t.a[0])
    part = lambda t: is_call(strip(t), 'UncoveredData::pick_center')

    def runs(t, some):
        if t.op in ('empty', 'nonempty') and far(strip_mut(t.a[0])):
            return (t.op == 'nonempty') == some
        if len_of(t) is not None and far(strip_mut(len_of(t))):
            return 1 if some else 0
        return None
    b, evs = effects(ctx, 'split_first', part, nested, runs)
    c = [e for e in evs if e.kind == 'call' and e.name == 'FirstCoveredData::split']
    ok = len(c) == 1 and is_param(c[0].args[0], 2) and radius_ok(c[0].args[1])
    ctx.ob('split-args', 'split_first', ok, c[0] if c else b.name, 'the covered points are not split at the radius base^split_scale')
    c = [e for e in evs if e.kind == 'call' and e.name == 'UncoveredData::pick_center']
    ok = len(c) == 1 and far(strip_mut(c[0].args[0])) and radius_ok(c[0].args[1]) and isf(c[0].args[2], 'point_cloud')
    ctx.ob('split-args', 'pick_center', ok, c[0] if c else b.name, 'the uncovered points are not covered with the radius base^split_scale')
    if len(c) == 1 and len(c[0].chain) == 1:
        fr = ctx.frame(b, NODES)
        ctx.ob('all-covered', 'repeats', bool(cycle_of(fr, c[0].chain[0][1])), c[0], 'uncovered points are not covered repeatedly')
        for x, y, g in loop_exits(fr, lambda e: e.kind == 'call' and e.name == 'UncoveredData::pick_center'):
            if all(any(a.op == 'try' and a.a[1] == 'err' for a in cl) for cl in g):
                continue
            k = Sim(evs, lambda t: runs(t, True)).guard(g)
            ctx.tri('all-covered', 'exit', None if k is None else not k, b.name, 'the loop can stop while points are uncovered')


@prop('T04')
def split_node(ctx):
    """a node becomes a leaf holding all its points, or is split at the next scale"""
    b = ctx.body('BuilderNode', 'split')
    evs = ctx.events(b, NODES)
    fr = ctx.frame(b, NODES)
    cov = lambda t: selff(t, 'covered')
    rs = [payload(v) for g, v in alts(fr.ret()) if strip_mut(v).op == 'ok']
    nw = calls(evs, 'CoverNode::new')
    ok = len(nw) == 1 and selff(nw[0].args[0], 'parent_address')
    if ok:
        ad = strip_mut(nw[0].args[1])
        ok = selff(tup(ad, 0), 'scale_index') and is_call(tup(ad, 1), 'CoveredData::center_index') and cov(strip_mut(tup(ad, 1)).a[1][0])
    ctx.ob('node', 'address', ok, nw[0] if nw else b.name, 'the node does not get its own address and parent')
    rd = calls(evs, 'CoverNode::set_radius')
    ctx.ob('node', 'radius', len(rd) == 1 and strip_noise(rd[0].guard) == TRUE and is_call(rd[0].args[1], 'CoveredData::max_distance') and cov(strip_mut(rd[0].args[1]).a[1][0]), rd[0] if rd else b.name, 'the recorded radius is not the largest distance of a covered point')
    ins = calls(evs, 'CoverNode::insert_singletons')
    sn, sf = calls(evs, 'BuilderNode::split_nearest'), calls(evs, 'BuilderNode::split_first')
    rem = calls(evs, 'CoverNode::remove_children')
    subs_ = calls(evs, 'AtomicUsize::fetch_sub', 'AtomicUsize::fetch_add')
    for n, lc, sc, mr, kind, nnew, nlen in product((1, 2, 3, 4), (0, 2, 3), (-2, -1, 0, 5), (-1,), ('FirstCoveredData', 'NearestCoveredData'), (0, 1, 2), (1, 2)):
        root = sc % 2 == 0
        leafy = n <= lc or sc < mr

        def leaf(t):
            if t.op == 'is' and cov(t.a[0]):
                return t.a[1] == kind
            if selff(t, 'parent_address'):
                return 'None' if root else ('Some', ('parent',))
            m = len_of(t)
            if m is not None:
                m = strip_mut(m)
                if cov(m):
                    return n
                if m.op == 'phi' or m.op == 'new' or is_call(m, 'BuilderNode::split_first', 'BuilderNode::split_nearest'):
                    return 0 if leafy else nnew
                if m.op == 'field' and m.a[1] == 'covered':
                    return nlen
            if t.op in ('empty', 'nonempty') and strip_mut(t.a[0]).op in ('phi', 'new'):
                return (t.op == 'empty') == (leafy or nnew == 0)
            if isf(t, 'leaf_cutoff'):
                return lc
            if isf(t, 'min_res_index'):
                return mr
            if selff(t, 'scale_index'):
                return sc
            return None
        s = Sim(evs, leaf)
        key = 'len=%d cutoff=%d scale=%d min=%d %s' % (n, lc, sc, mr, kind)
        col = not leafy and nnew == 1 and nlen == 1
        try:
            fi, fn, ff, fm = s.fired(ins), s.fired(sn), s.fired(sf), s.fired(rem)
        except Unknown as u:
            ctx.undecided('split %s %s' % (key, short(u)))
            break
        own = [e for e in fi if is_call(e.args[1], 'CoveredData::into_indexes') and cov(strip_mut(e.args[1]).a[1][0])]
        popped = [e for e in fi if e not in own]
        if nnew == 0 and nlen == 1:
            ctx.ob('leaf', key, (len(own) == 1) == leafy and len(own) <= 1, ins[0] if ins else b.name, 'a node %s all its points as singletons' % ('that is a leaf does not store' if leafy else 'that is split also stores'))
            f, nr = len(ff), len(fn)
            ctx.ob('split-kind', key, (f, nr) == ((0, 0) if leafy else (1, 0) if kind[0] == 'F' else (0, 1)), b.name, 'the node is split %d times by first and %d times by nearest' % (f, nr))
        d = 0
        try:
            for e in s.fired(subs_):
                d += s.val(e.args[1]) * (1 if e.name.endswith('add') else -1)
        except Unknown:
            continue
        k2 = key + ' children=%d of %d' % (nnew, nlen)
        if sc == 5 and n == 4 and lc == 2:
            ctx.ob('collapse', k2, len(fm) == len(popped) == -d and (len(fm) <= (1 if col else 0)), b.name, 'children removed %d times, their points kept as singletons %d times, outstanding nodes changed by %d: only a lone child of one point may be folded into its parent' % (len(fm), len(popped), d))
    for e in popped_ok(ins, cov):
        t = strip_mut(e.args[1])
        ok = is_call(t, 'CoveredData::into_indexes') and isf(t.a[1][0], 'covered') and mentions(t.a[1][0], lambda x: is_call(x, 'Vec::pop', 'Vec::remove', 'Vec::swap_remove'))
        ctx.tri('collapse', 'points kept', True if ok else None, e, short(t))
    for e in sn + sf:
        ctx.ob('split-args', e.name.split('::')[-1], is_call(e.args[0], 'CoverNode::new') and selff(tup(strip_mut(e.args[1]), 0), 'scale_index') and is_call(tup(strip_mut(e.args[1]), 1), 'center_index') and mentions(e.args[2], cov) and is_param(e.args[4], 1), e, 'the node is not split with its own address and points')
        for sc, r, m in product((-3, 0, 4), (-9, -2.5, -2, 0, 0.25, 3, 2.75, 7), (-10, -4, 0, 2)):
            if sc < m:
                continue

            def leaf(t):
                if selff(t, 'scale_index'):
                    return sc
                if isf(t, 'min_res_index'):
                    return m
                if t.op == 'call' and t.a[0] in ('f32::log', 'f64::log') and isf(t.a[1][1], 'scale_base') and is_call(t.a[1][0], 'max_distance'):
                    return r
                return None
            s = Sim(evs, leaf)
            try:
                v = s.val(e.args[3])
            except Unknown as u:
                ctx.undecided('next scale ' + short(u))
                break
            want = min(sc - 1, max(math.ceil(r), m))
            ctx.ob('next-scale', '%s scale=%d radius=%s min=%d' % (e.name.split('::')[-1], sc, r, m), v == want, e, 'the next scale is %s instead of %s' % (v, want))


def popped_ok(ins, cov):
    return [e for e in ins if not (is_call(e.args[1], 'CoveredData::into_indexes') and cov(strip_mut(e.args[1]).a[1][0]))]
