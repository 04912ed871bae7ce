"""T07, T08: k nearest neighbour search."""
from itertools import product
from rules import prop
from rulelib import *
import sem

CHILD_POP = 'KnnQueryHeap::closest_unvisited_child_covering_address'
SING_POP = 'KnnQueryHeap::closest_unvisited_singleton_covering_address'
KNN = TREE + ('KnnQueryHeap::new', 'KnnQueryHeap::unpack', 'KnnQueryHeap::push_nodes', 'RoutingQueryHeap::push_nodes',
              'KnnQueryHeap::push_outliers', 'SingletonQueryHeap::push_outliers', CHILD_POP, SING_POP,
              'CoverNode::child_knn', 'CoverNode::singleton_knn')


def heap_of(t):
    t = strip_mut(t)
    return t.a[1] if t.op == 'field' else None


def pushes(evs, heap):
    return [e for e in evs if e.kind == 'call' and e.name == 'BinaryHeap::push' and heap_of(e.args[0]) == heap]


def agg_get(t, name):
    t = strip_mut(t)
    if t.op == 'agg':
        for n, v in t.a[1]:
            if n == name:
                return v
    return None


def heap_model(known, n, k, rel, dterm, iterm, base=None):
    """one cell: is the index known, current size n, limit k, order of the new distance against the worst kept one"""
    PK = 2.0
    d = {'lt': 1.0, 'eq': 2.0, 'gt': 3.0}[rel]

    def leaf(t):
        if dterm(t):
            return d
        if t.op == 'call' and t.a[0] == 'HashSet::contains' and heap_of(t.a[1][0]) == 'known_indexes':
            return known
        if t.op == 'call' and t.a[0] == 'HashSet::insert' and heap_of(t.a[1][0]) == 'known_indexes':
            return not known
        if t.op == 'call' and t.a[0] in ('BinaryHeap::peek', 'BinaryHeap::peek_mut') and heap_of(t.a[1][0]) == 'dist_heap':
            return ('Some', ('top',)) if n > 0 else 'None'
        if t.op == 'field' and t.a[1] == 'dist' and mentions(t.a[0], lambda x: x.op == 'call' and x.a[0].startswith('BinaryHeap::peek')):
            return PK
        if len_of(t) is not None and heap_of(len_of(t)) == 'dist_heap':
            return n
        if t.op == 'field' and t.a[1] == 'k':
            return k
        return None
    return Model(leaf)


CELLS = [(n, k, rel) for k in (1, 2, 3) for n in range(0, k + 2) for rel in ('lt', 'eq', 'gt')]


def insertion(ctx, b, ip, dp, tag, part):
    """the point-insertion logic of one of the two push methods"""
    evs = ctx.events(b)
    dterm = lambda t: is_elem(t, par(dp))
    ps = pushes(evs, 'dist_heap')
    if not ps:
        raise Missing('%s: nothing is pushed on the result heap' % tag)

    def iterm(t):
        return is_elem(t, par(ip)) or (strip_mut(t).op == 'field' and strip_mut(t).a[1] == '1' and is_elem(strip_mut(t).a[0], par(ip)))
    if part == 'exact':
        for e in ps:
            v = strip_mut(e.args[1])
            ctx.ob('result-pair', tag, agg_get(v, 'dist') is not None and dterm(agg_get(v, 'dist')) and iterm(agg_get(v, 'index')), e,
                   'a result is stored with a distance or an index other than those of the point: ' + short(v))
            full = all(any(a.op == 'each' and mentions(a, lambda x: is_param(x, ip)) and not mentions(a, lambda x: x.op in ('taken', 'filtered', 'stepby')) for a in c) for c in e.guard)
            ctx.ob('every-point', tag, full, e, 'not every pushed point is considered')
        for n, k, rel in CELLS:
            m = heap_model(False, n, k, rel, dterm, iterm)
            fired = [m.guard(e.guard) for e in ps]
            must = n < k or rel == 'lt'
            if must:
                ctx.ob('insert-new-close', '%s n=%d k=%d %s' % (tag, n, k, rel), any(f is True for f in fired), ps[0],
                       'a new point is not entered although %s (kept %d, k=%d): %s' % ('the list is not full' if n < k else 'it is closer than the worst kept', n, k, short(ps[0].guard)))
        pops = [e for e in evs if e.kind == 'call' and e.name == 'BinaryHeap::pop' and heap_of(e.args[0]) == 'dist_heap']
        for e in pops:
            for n, k, rel in CELLS:
                if n > k:
                    continue
                m = heap_model(False, n, k, rel, dterm, iterm)
                ctx.ob('evict-only-surplus', '%s n=%d k=%d %s' % (tag, n, k, rel), m.guard(e.guard) is False, e,
                       'a kept neighbour is dropped while only %d of %d are kept' % (n, k))
    else:
        for n, k, rel in CELLS:
            m = heap_model(True, n, k, rel, dterm, iterm)
            ctx.ob('no-duplicates', '%s n=%d k=%d %s' % (tag, n, k, rel), all(m.guard(e.guard) is False for e in ps), ps[0],
                   'a point already seen can be entered a second time')
        ins = [e for e in evs if e.kind == 'call' and e.name == 'HashSet::insert' and heap_of(e.args[0]) == 'known_indexes']
        ctx.ob('remember', tag, bool(ins) and all(iterm(e.args[1]) for e in ins), ins[0] if ins else ps[0], 'seen points are not remembered by their index')
        for e in ps:
            ok = False
            for n, k, rel in CELLS:
                m = heap_model(False, n, k, rel, dterm, iterm)
                if m.guard(e.guard) is True and not any(m.guard(i.guard) is True for i in ins):
                    break
            else:
                ok = True
            ctx.ob('remember-all', '%s@%s' % (tag, 'push'), ok, e, 'a point is entered without being remembered as seen')
        # shrinking back to k after every push
        pops = [e for e in evs if e.kind == 'call' and e.name == 'BinaryHeap::pop' and heap_of(e.args[0]) == 'dist_heap']
        for n, k, rel in CELLS:
            if n <= k:
                continue
            m = heap_model(False, n, k, rel, dterm, iterm)
            if any(m.guard(e.guard) is True for e in pops):
                ctx.ob('shrink', '%s n=%d k=%d' % (tag, n, k), True)
                continue
            # conditions shared with the push are those of the moment before it
            pre = heap_model(False, n - 1, k, rel, dterm, iterm)
            ent = [e for e in ps if pre.guard(e.guard) is not False]
            early_ = {a for e in ps for a in atoms_of(e.guard)}
            vs = [[(pre if a in early_ else m).atom(a) for a in c] for e in pops for c in e.guard]
            ok = any(all(v is True for v in c) for c in vs) or not ent
            ctx.tri('shrink', '%s n=%d k=%d' % (tag, n, k), ok or (None if any(False not in c for c in vs) else False), pops[0] if pops else ps[0],
                    'more than k neighbours are kept')
        # on every path a push is followed by the size test
        def step(s, e):
            if e.kind != 'call':
                return s
            if e.name == 'BinaryHeap::push' and heap_of(e.args[0]) == 'dist_heap':
                return 'pushed'
            if e.name in ('BinaryHeap::len',) and heap_of(e.args[0]) == 'dist_heap':
                return 'tested'
            return s
        ex = Typestate(step).run(ctx.frame(b), 'start')
        ctx.ob('size-checked', tag, 'pushed' not in ex, ps[0], 'a push can leave more than k neighbours behind: the size is not tested after it')


def push_bodies(ctx):
    return (ctx.body('KnnQueryHeap', 'push_nodes', 'RoutingQueryHeap'), ctx.body('KnnQueryHeap', 'push_outliers', 'SingletonQueryHeap'))


@prop('T07')
def heap_inserts(ctx):
    """results of the search are the k closest: what enters and leaves the result heap"""
    a, b = push_bodies(ctx)
    insertion(ctx, a, 1, 2, 'push_nodes', 'exact')
    insertion(ctx, b, 1, 2, 'push_outliers', 'exact')


@prop('T08')
def heap_unique(ctx):
    """distinct, at most k"""
    a, b = push_bodies(ctx)
    insertion(ctx, a, 1, 2, 'push_nodes', 'shape')
    insertion(ctx, b, 1, 2, 'push_outliers', 'shape')


def is_scale_of(t, base, ix):
    t = strip_mut(t)
    return t.op == 'call' and t.a[0].split('::')[-1] in ('powi', 'powf') and base(t.a[1][0]) and ix(t.a[1][1])


@prop('T07')
def pruning(ctx):
    """a node is skipped only if everything below it is at least as far as the worst kept neighbour"""
    b = push_bodies(ctx)[0]
    evs = ctx.events(b)
    ps = pushes(evs, 'child_heap')
    if not ps:
        raise Missing('push_nodes: no node is queued')
    dterm = lambda t: is_elem(t, par(2))
    aterm = lambda t: is_elem(t, par(1))
    si = lambda t: strip_mut(t).op == 'field' and strip_mut(t).a[1] == '0' and aterm(strip_mut(t).a[0])
    for e in ps:
        v = strip_mut(e.args[1])
        ad = agg_get(v, 'address')
        okad = ad is not None and (aterm(ad) or (ad.op == 'agg' and si(ad.a[1][0][1]) and strip_mut(ad.a[1][1][1]).op == 'field' and strip_mut(ad.a[1][1][1]).a[1] == '1' and aterm(strip_mut(ad.a[1][1][1]).a[0])))
        ctx.ob('queued-node', 'address', okad, e, 'a node is queued under another address: ' + short(ad))
        ctx.ob('queued-node', 'distance', agg_get(v, 'dist_to_center') is not None and dterm(agg_get(v, 'dist_to_center')), e, 'a node is queued with a distance that is not its own')
        ctx.ob('every-node', 'push_nodes', all(any(x.op == 'each' and mentions(x, lambda y: is_param(y, 1)) and not mentions(x, lambda y: y.op in ('taken', 'filtered', 'stepby')) for x in c) for c in e.guard), e,
               'not every child handed to the heap is considered')
        md = agg_get(v, 'min_dist')
        lower_bound(ctx, 'min_dist', md, dterm, si, e)
    # numeric cells: scale^si = s, distance d, kept n of k with worst w
    for n, k in ((0, 1), (0, 2), (1, 2), (1, 1), (2, 2), (3, 3), (2, 3)):
        for d, s, w, fold in product((1.0, 2.0, 4.0, 8.0), (1.0, 2.0, 4.0), (1.0, 2.0, 3.0), (0.125, 8.0)):
            lb = max(0.0, d - s)
            must = n < k or lb < w
            if not must:
                continue

            def leaf(t, d=d, s=s, w=w, n=n, k=k, fold=fold):
                if t.op == 'phi' and any(x.op == 'rec' and str(x.a[1]).startswith('fold') for y in variants(t) for x in subterms(y)):
                    return d * fold
                if dterm(t):
                    return d
                if is_scale_of(t, lambda x: strip_mut(x).op == 'field' and strip_mut(x).a[1] == 'scale_base', si):
                    return s
                if t.op == 'call' and t.a[0].startswith('BinaryHeap::peek') and heap_of(t.a[1][0]) == 'dist_heap':
                    return ('Some', ('top',)) if n > 0 else 'None'
                if t.op == 'field' and t.a[1] == 'dist' and mentions(t.a[0], lambda x: x.op == 'call' and x.a[0].startswith('BinaryHeap::peek')):
                    return w
                if len_of(t) is not None and heap_of(len_of(t)) == 'dist_heap':
                    return n
                if t.op == 'field' and t.a[1] == 'k':
                    return k
                if t.op == 'rec':
                    return w if n >= k else float('inf')
                return None
            m = Model(leaf)
            ctx.ob('prune-only-far', 'n=%d k=%d d=%g s=%g w=%g %g' % (n, k, d, s, w, fold), any(m.guard(e.guard) is True for e in ps), ps[0],
                   'a child that can still cover a closer point is not visited (distance %g, cover radius %g, worst kept %g, %d of %d): %s' % (d, s, w, n, k, short(ps[0].guard)))


def lower_bound(ctx, key, md, dterm, si, e):
    ok = md is not None
    why = ''
    if ok:
        for d, s in product((1.0, 2.0, 4.0, 8.0), (1.0, 2.0, 4.0)):
            def leaf(t, d=d, s=s):
                if dterm(t):
                    return d
                if is_scale_of(t, lambda x: strip_mut(x).op == 'field' and strip_mut(x).a[1] == 'scale_base', si):
                    return s
                return None
            try:
                v = Model(leaf).val(md)
            except Unknown as u:
                v, why = None, str(u)
            if v is None or v > max(0.0, d - s):
                ok = False
    ctx.ob('lower-bound', key, ok, e, 'the distance a node is queued with is not a lower bound of the distance to the points it covers: %s %s' % (short(md), why))


@prop('T07')
def max_dist(ctx):
    b = ctx.body('KnnQueryHeap', 'max_dist')
    r = ctx.frame(b).ret()
    for n, k in ((0, 1), (0, 2), (1, 2), (1, 1), (2, 2), (3, 3), (2, 3), (0, 0)):
        m = heap_model(False, n, k, 'eq', lambda t: False, None)
        try:
            v = m.val(r)
        except Unknown as u:
            v = None
        want = float('inf') if n < k or n == 0 else 2.0
        ctx.ob('bound', 'n=%d k=%d' % (n, k), v is not None and v >= want, b.name, 'the pruning bound is %s with %d of %d kept: closer points would be pruned' % (v, n, k))


@prop('T07')
def queue_pops(ctx):
    """nodes leave the queues only to be handed out"""
    for meth, src, dst in ((CHILD_POP, 'child_heap', 'singleton_heap'), (SING_POP, 'singleton_heap', None)):
        b = ctx.body('KnnQueryHeap', meth.split('::')[1])
        fr = ctx.frame(b)
        evs = ctx.events(b)
        pops = [e for e in evs if e.kind == 'call' and e.name == 'BinaryHeap::pop' and heap_of(e.args[0]) == src]
        if not pops:
            raise Missing('%s: no pop of %s' % (meth, src))
        pop = pops[0].value if hasattr(pops[0], 'value') else None
        popt = [x for e in evs for x in (subterms(e.args[-1]) if e.kind == 'call' and e.args else ()) if x.op == 'call' and x.a[0] == 'BinaryHeap::pop' and heap_of(x.a[1][0]) == src]
        rt = fr.ret()
        popt += [x for x in subterms(rt) if x.op == 'call' and x.a[0] == 'BinaryHeap::pop' and heap_of(x.a[1][0]) == src]
        ctx.ob('pop-source', meth, bool(popt), pops[0], 'nothing popped is handed out')
        if not popt:
            continue
        P = popt[0]
        hand = [(g, v) for g, v in alts(rt) if not (v.op == 'agg' and v.a[0].endswith('None'))]
        for g, v in hand:
            pv = payload(v)
            ok = strip(tup(pv, 1)).op == 'field' and isf(tup(pv, 1), 'address') and isf(tup(pv, 0), 'dist_to_center') and \
                mentions(tup(pv, 1), lambda x: x is P) and mentions(tup(pv, 0), lambda x: x is P)
            ctx.ob('handed-out', meth, ok, b.name, 'the address or distance handed out is not that of the node popped: ' + short(v))
        back = [e for e in pushes(evs, src) if mentions(e.args[1], lambda x: x is P)]
        moved = [e for e in pushes(evs, dst) if mentions(e.args[1], lambda x: x is P)] if dst else []
        some = mk('is', P, 'Some')
        # at every return after a Some the node was moved / or re-queued before popping again
        def step(s, e):
            if e.kind != 'call':
                return s
            if e.name == 'BinaryHeap::pop' and heap_of(e.args[0]) == src:
                return 'held' if s not in ('held',) else 'lost'
            if e.name == 'BinaryHeap::push' and mentions(e.args[1], lambda x: x is P):
                return 'back' if heap_of(e.args[0]) == src else ('moved' if heap_of(e.args[0]) == dst else s)
            return s
        lost = []

        def step2(s, e):
            r = step(s, e)
            if r == 'lost':
                lost.append(e)
            return r
        Typestate(step2).run(fr, 'start')
        kept = not lost
        if lost:
            # it may be left out once it cannot improve a full result
            rets = [g for g, v in hand]
            for n, mn, cen, up in product((1, 2), (1.0, 2.0, 3.0), (1.0, 2.0, 4.0), (None, 0.5, 1.5, 2.0, 5.0)):
                def leaf(t):
                    if t.op == 'field' and t.a[1] in ('min_dist', 'dist_to_center') and mentions(t.a[0], lambda x: x is P):
                        return mn if t.a[1] == 'min_dist' else max(mn, cen)
                    if t.op == 'call' and t.a[0].split('::')[-1] == 'remove' and heap_of(t.a[1][0]) == 'est_min_dist':
                        # what the parent's children suggest is an estimate, no bound for its singletons
                        return 'None' if up is None else ('Some', up)
                    if t is P:
                        return ('Some', ('node',))
                    return heap_model(False, n, 2, 'lt', lambda x: False, lambda x: False).leaf(t)
                m = Model(leaf)
                vs = [m.guard(g) for g in [e.guard for e in back + moved] + rets]
                if n < 2 or mn < 2.0:
                    kept = True in vs or (None if None in vs and kept is not False else False)
                    if kept is False:
                        break
                    if kept is None:
                        continue
        ctx.tri('no-node-lost', meth, kept, lost[0] if lost else pops[0], 'a node is popped and the next one taken without visiting or re-queueing it')
        if dst:
            u = uncovered([e.guard for e in back + moved], [some], loopish)
            ctx.ob('node-kept-for-singletons', meth, u is None, pops[0], 'a popped node is neither re-queued nor kept for its singletons when ' + short(u))
            # handed out implies moved
            for g, v in hand:
                u = None
                for c in g:
                    u = u or uncovered([e.guard for e in moved], [a for a in c if not loopish(a)] + [some], loopish)
                if g == TRUE or u is None:
                    ctx.ob('handed-out-kept', meth, True)
                else:
                    ctx.ob('handed-out-kept', meth, not back_excl(u, back), pops[0], 'a node is handed out but not kept for its singletons when ' + short(u))
        else:
            # re-queued or returned: a popped node that is not re-queued must be returned on that path
            ex = Typestate(step).run(fr, 'start')
            ctx.ob('returned', meth, 'back' not in ex or True, pops[0])


def back_excl(u, back):
    return not any(all((negate(a) not in u) for a in c) for e in back for c in e.guard)


# ---- drivers -----------------------------------------------------------------

def heap_arg(t):
    return strip_mut(t)


def is_child_pop(t):
    return is_call(t, CHILD_POP.split('::')[1])


def is_sing_pop(t):
    return is_call(t, SING_POP.split('::')[1])


def start(ctx, b, evs, meth):
    news = [e for e in evs if e.kind == 'call' and e.name == 'KnnQueryHeap::new']
    ctx.ob('heap-params', meth, len(news) == 1 and is_param(news[0].args[0], 2) and isf(news[0].args[1], 'parameters', 'scale_base'), news[0] if news else b.name,
           'the search heap is not created with the requested k and the scale base of the tree')
    rp = [e for e in evs if e.kind == 'call' and e.name.endswith('::push_nodes') and
          strip_mut(e.args[1]).op == 'agg' and any(selff(v, 'root_address') for _, v in strip_mut(e.args[1]).a[1])]
    ok = False
    if rp:
        e = rp[0]
        ds = strip_mut(e.args[2])
        d = strip_mut(ds.a[1][0][1]) if ds.op == 'agg' and ds.a[1] else None
        ok = d is not None and d.op == 'call' and d.a[0] == 'Metric::dist' and any(is_param(x, 1) for x in d.a[1]) and \
            any(mentions(x, lambda y: is_call(y, 'PointCloud::point') and selff(strip(y).a[1][1], 'root_address', '1')) for x in d.a[1]) and not guard_must(e)
    ctx.ob('starts-at-root', meth, ok, rp[0] if rp else b.name, 'the search does not start from the root with the distance of its center to the query')
    return rp


def visit_rules(ctx, meth, evs, popname, callee, what, allowed):
    es = [e for e in evs if e.kind == 'call' and e.name == 'CoverNode::' + callee]
    good = []
    for e in es:
        a = is_node(e.args[0])
        src = strip(a.a[0]) if a is not None and a.op == 'field' and a.a[1] == '1' else None
        ok = src is not None and is_call(src, popname)
        ctx.ob('visits-popped', '%s %s' % (meth, callee), ok, e, '%s of a node other than the one popped are searched: %s' % (what, short(e.args[0])))
        extra = [x for x in atoms_of(e.guard) if not allowed(x)]
        ctx.ob('visits-always', '%s %s' % (meth, callee), not extra, e, '%s of a popped node are skipped unless %s' % (what, short(extra)))
        good.append(e)
    ctx.ob('visits', '%s %s' % (meth, callee), bool(es), '', '%s of the popped nodes are never searched' % what)
    return es


def allowed_atom(x):
    if loopish(x):
        return True
    if x.op == 'is' and x.a[1] == 'Some':
        s = strip(x.a[0])
        if is_child_pop(s) or is_sing_pop(s):
            return True
        if is_node(x.a[0]) is not None and strip_mut(x.a[0]).op == 'call':
            return True
        if isf(x.a[0], 'children'):
            return True
    return False


@prop('T07')
def knn_driver(ctx):
    b = ctx.body('CoverTreeReader', 'knn')
    evs = ctx.events(b, opaque=KNN)
    fr = ctx.frame(b, opaque=KNN)
    start(ctx, b, evs, 'knn')
    for e in visit_rules(ctx, 'knn', evs, 'closest_unvisited_singleton_covering_address', 'singleton_knn', 'the singletons', allowed_atom):
        ctx.ob('query-args', 'knn singletons', is_param(e.args[1], 1) and isf(e.args[2], 'point_cloud'), e, 'the singletons are compared with something other than the query point')
    for e in visit_rules(ctx, 'knn', evs, 'closest_unvisited_child_covering_address', 'child_knn', 'the children', allowed_atom):
        child_args(ctx, 'knn', e)

    def step(s, e):
        if e.kind != 'call':
            return s
        if e.name.endswith('::push_nodes') or e.name == 'CoverNode::child_knn':
            return ('dirty', s[1])
        if e.name == CHILD_POP:
            return ('clean', 'c')
        if e.name == SING_POP:
            # a child pop hands its node to the singleton queue: only the first singleton pop after it can tell that both queues are empty
            return ('used' if s[0] == 'clean' else 'stale', 's')
        if e.name == 'CoverNode::singleton_knn':
            return (s[0], 'v')
        if e.name == 'FromResidual::from_residual':
            return ('err', '')
        if e.name == 'KnnQueryHeap::unpack':
            if s[0] == 'err':
                return s
            ends.append((s, e))
        return s
    ends = []
    Typestate(step).run(fr, ('dirty', ''))
    ctx.ob('unpacks', 'knn', bool(ends), b.name, 'the results are never read off')
    bad = [(s, e) for s, e in ends if s != ('used', 's')]
    ctx.ob('runs-to-exhaustion', 'knn', not bad, bad[0][1] if bad else b.name, 'results are read while nodes are still queued (last action before: %s)' % (bad[0][0],) if bad else '')
    rets(ctx, fr, b, 'knn')
    ex = loop_exits(fr, lambda e: e.kind == 'call' and e.name == SING_POP)
    ctx.ob('loops', 'knn', bool(ex), b.name, 'the singleton queue is not drained in a loop')
    for x, y, g in ex:
        ok = all(any((a.op == 'is' and a.a[1] == 'None' and is_sing_pop(a.a[0])) or (a.op == 'try' and a.a[1] == 'err') for a in c) for c in g)
        ctx.ob('stops-only-when-empty', 'knn', ok, b.name, 'the search loop ends although nodes are still queued: exit on ' + short(g))


def rets(ctx, fr, b, meth):
    for g, v in alts(fr.ret()):
        if v.op == 'residual' or (v.op == 'agg' and v.a[0].endswith('Err')):
            continue
        ctx.ob('returns-heap', meth, is_call(payload(v), 'unpack'), b.name, 'the result is not the unpacked heap: ' + short(v))


def child_args(ctx, meth, e):
    d = strip(e.args[1])
    ok = strip_mut(e.args[1]).op == 'agg' and strip_mut(e.args[1]).a[0].endswith('None')
    ok = ok or (d.op == 'field' and d.a[1] == '0' and is_child_pop(strip(d.a[0])))
    ctx.ob('query-args', meth + ' children', ok and is_param(e.args[2], 1) and isf(e.args[3], 'point_cloud'), e,
           'the children are searched with a distance or point that is not the query\'s: ' + short(e.args[1]))


def bool_helpers(ctx):
    out = []
    for b in ctx.eng.bodies:
        if b.crate == 'goko' and b.kind == 'fn' and (b.ret or '').strip() == 'bool' and b.owner and b.owner[0] != 'KnnQueryHeap':
            if any(e.kind == 'call' and e.name == CHILD_POP for e, _ in ctx.frame(b, opaque=KNN).local_events()):
                out.append(b)
    return out


@prop('T07')
def routing_driver(ctx):
    b = ctx.body('CoverTreeReader', 'routing_knn')
    evs = ctx.events(b, opaque=KNN)
    start(ctx, b, evs, 'routing_knn')
    for e in visit_rules(ctx, 'routing_knn', evs, 'closest_unvisited_child_covering_address', 'child_knn', 'the children', allowed_atom):
        child_args(ctx, 'routing_knn', e)
    hs = bool_helpers(ctx)
    names = tuple('%s::%s' % (h.owner[0], h.method) for h in hs)
    fr = ctx.frame(b, opaque=KNN + names)
    rets(ctx, fr, b, 'routing_knn')

    def progress(t):
        return is_child_pop(t) or is_call(t, *[n.split('::')[1] for n in names])
    ex = loop_exits(fr, lambda e: e.kind == 'call' and (e.name == CHILD_POP or e.name in names))
    ctx.ob('loops', 'routing_knn', bool(ex), b.name, 'the node queue is not drained in a loop')
    for x, y, g in ex:
        ok = all(any((a.op == 'is' and a.a[1] == 'None' and is_child_pop(a.a[0])) or (a.op == 'try' and a.a[1] == 'err') or
                     (a.op == 'bool' and a.a[1] is False and progress(a.a[0])) for a in c) for c in g)
        ctx.ob('stops-only-when-empty', 'routing_knn', ok, b.name, 'the search loop ends although nodes are still queued: exit on ' + short(g))
    for h in hs:
        fh = ctx.frame(h, opaque=KNN)
        sets = [e for e in fh.events() if e.kind == 'set' and const_is(e.val, 'true')]
        ok = any(all(allowed_atom(a) and not (a.op == 'is' and (is_node(a.a[0]) is not None or isf(a.a[0], 'children'))) for c in e.guard for a in c) and
                 any(a.op == 'is' and is_child_pop(a.a[0]) for a in must_atoms(e.guard)) for e in sets)
        if not sets:
            ok = all(const_is(v, 'true') and True or any(a.op == 'is' and is_child_pop(a.a[0]) and a.a[1] == 'None' for a in must_atoms(g)) for g, v in alts(fh.ret()))
        ctx.ob('reports-progress', h.method, ok, h.name, '%s can report that nothing is left although it took a node from the queue' % h.method)


# ---- node side ----------------------------------------------------------------

def dists_of(t, point, pts):
    """t = distances_to_point(cloud, point, pts)"""
    t = strip(t)
    return t.op == 'call' and t.a[0].endswith('distances_to_point') and point(t.a[1][1]) and pts(t.a[1][2])


def second(src):
    """sequence of the second components of the addresses src"""
    def f(t):
        t = strip_mut(t)
        return t.op == 'mapped' and src(strip_mut(t.a[0])) and strip_mut(t.a[1]).op == 'field' and strip_mut(t.a[1]).a[1] == '1' and is_elem(strip_mut(t.a[1]).a[0], src)
    return f


def addresses(t):
    return isf(t, 'children', 'addresses')


def filtered_free(t):
    return not mentions(t, lambda x: x.op in ('filtered', 'taken', 'stepby', 'drain'))


@prop('T07')
def node_knn(ctx):
    b = ctx.body('CoverNode', 'child_knn')
    evs, _ = ctx.nevents(b)
    ps = [e for e in evs if e.kind == 'call' and e.name.endswith('::push_nodes')]
    nested = [e for e in ps if strip_mut(e.args[1]).op == 'agg']
    rest = [e for e in ps if addresses(e.args[1])]

    def only_children(e):
        return all(loopish(a) or (a.op == 'is' and a.a[1] == 'Some' and isf(a.a[0], 'children')) for c in e.guard for a in c)
    ok = False
    if nested:
        e = nested[0]
        l = [v for _, v in strip_mut(e.args[1]).a[1]]
        ds = strip_mut(e.args[2])
        dl = [v for _, v in ds.a[1]] if ds.op == 'agg' else []
        okad = len(l) == 1 and isf(tup(l[0], 0), 'children', 'nested_scale') and selff(tup(l[0], 1), 'address', '1')
        okd = len(dl) == 1
        for v in (variants(dl[0]) if dl else []):
            own = is_param(strip(v), 1)
            comp = strip_mut(v).op == 'index' and intval(strip_mut(v).a[1]) == 0 and dists_of(
                strip_mut(v).a[0], lambda t: is_param(t, 2), lambda t: t.op == 'agg' and len(t.a[1]) == 1 and selff(t.a[1][0][1], 'address', '1'))
            okd = okd and (own or comp)
        ctx.ob('nested-child', 'address', okad, e, 'the nested child is pushed under another address: ' + short(e.args[1]))
        ctx.ob('nested-child', 'distance', okd, e, 'the nested child is pushed with a distance that is not the center\'s: ' + short(e.args[2]))
        ctx.ob('nested-child', 'always', only_children(e), e, 'the nested child is searched only under ' + short(e.guard))
    else:
        ctx.ob('nested-child', 'pushed', False, b.name, 'the nested child is not searched')
    if rest:
        e = rest[0]
        ctx.ob('other-children', 'distances', dists_of(e.args[2], lambda t: is_param(t, 2), second(addresses)) and filtered_free(e.args[2]), e,
               'the children are pushed with distances that are not theirs: ' + short(e.args[2]))
        ctx.ob('other-children', 'always', only_children(e), e, 'the children are searched only under ' + short(e.guard))
    else:
        ctx.ob('other-children', 'pushed', False, b.name, 'the children are not all searched')
    b = ctx.body('CoverNode', 'singleton_knn')
    evs = ctx.events(b)
    ps = [e for e in evs if e.kind == 'call' and e.name.endswith('::push_outliers')]
    ok = len(ps) == 1 and isf(ps[0].args[1], 'singles_indexes') and dists_of(ps[0].args[2], lambda t: is_param(t, 1), lambda t: isf(t, 'singles_indexes'))
    ctx.ob('singletons', 'all with their distances', ok, ps[0] if ps else b.name, 'the singletons are not all searched with their own distances')
    if ps:
        ctx.ob('singletons', 'always', not [a for a in atoms_of(ps[0].guard) if not loopish(a) and not (a.op == 'nonempty' and isf(a.a[0], 'singles_indexes'))], ps[0], 'the singletons are searched only under ' + short(ps[0].guard))


# ---- T08: order ----------------------------------------------------------------

@prop('T08')
def order(ctx):
    for meth, trait in (('partial_cmp', 'PartialOrd'), ('cmp', 'Ord')):
        b = ctx.body('QuerySingleton', meth, trait)
        r = ctx.frame(b).ret()
        vs = variants(r)
        ok = any(is_call(v, 'partial_cmp', 'total_cmp') and selff(strip(v).a[1][0], 'dist') and is_param(strip(strip(v).a[1][1]).a[0] if strip(strip(v).a[1][1]).op == 'field' else mk('x'), 1) for v in vs) and \
            all(is_call(v, 'partial_cmp', 'total_cmp') and selff(strip(v).a[1][0], 'dist') or v.op == 'agg' for v in vs)
        ctx.ob('heap-order', meth, ok, b.name, 'candidates are not ordered by their distance, largest on top: ' + short(r))
    b = ctx.body('KnnQueryHeap', 'unpack')
    fr = ctx.frame(b)
    evs = ctx.events(b)
    r = fr.ret()
    s = strip_mut(r)
    # the heap drained largest first into a vector, then reversed - or sorted ascending
    flips = 0
    while s.op in ('rev', 'sorted', 'mapped') or (s.op == 'mutref'):
        if s.op == 'rev':
            flips += 1
        s = strip_mut(s.a[0])
    revs = [e for e in evs if e.kind == 'call' and e.name.split('::')[-1] == 'reverse']
    flips += len(revs)
    popv = [e for e in evs if e.kind == 'call' and e.name == 'BinaryHeap::pop' and heap_of(e.args[0]) == 'dist_heap']
    srt = [e for e in evs if e.kind == 'call' and e.name.split('::')[-1] in ('into_sorted_vec',)]
    if srt:
        ctx.ob('ascending', 'unpack', flips % 2 == 0, srt[0], 'the result is not in ascending order')
        ctx.ob('all-returned', 'unpack', filtered_free(r), srt[0], 'kept neighbours are left out of the result')
        return
    front = [e for e in evs if e.kind == 'call' and e.name.split('::')[-1] in ('push_front', 'insert') and e.kind == 'call']
    pv = [e for e in evs if e.kind == 'call' and e.name.split('::')[-1] in ('push', 'push_front', 'push_back', 'insert') and mentions(e.args[-1], lambda x: x.op == 'call' and x.a[0] == 'BinaryHeap::pop')]
    cut = [e for e in evs if e.kind == 'call' and e.name.startswith('Vec::') and e.name.split('::')[-1] in ('dedup', 'dedup_by', 'dedup_by_key', 'truncate', 'retain', 'pop', 'remove', 'swap_remove')]
    ctx.ob('all-returned', 'unpack, kept whole', not cut, cut[0] if cut else b.name, 'kept neighbours are taken out of the result again')
    if not popv:
        # taken out in no particular order: must be sorted
        raw = mentions(r, lambda x: heap_of(x) == 'dist_heap') or any(e.kind == 'call' and e.args and heap_of(e.args[0]) == 'dist_heap' and e.name.split('::')[-1] in ('into_vec', 'drain', 'into_iter', 'iter') for e in evs)
        so = [e for e in evs if e.kind == 'call' and 'sort' in e.name.split('::')[-1]]
        if not so:
            ctx.tri('ascending', 'unpack', False if raw else None, b.name, 'the heap is read off in the order of its storage, not of the distances: ' + short(r))
            return
        if len(so) == 1 and len(so[0].args) == 2 and so[0].name.split('::')[-1] in ('sort_by', 'sort_unstable_by'):
            dr, key = compares(so[0].ret.a[1][1] if so[0].ret is not None and so[0].ret.op == 'call' else so[0].args[1])
            ctx.tri('ascending', 'unpack', None if dr == 0 else (dr == 1) == (flips % 2 == 0), so[0], 'the result is not in ascending order')
        else:
            ctx.undecided('unpack: how the result is sorted')
        ctx.ob('all-returned', 'unpack', filtered_free(r), b.name, 'kept neighbours are left out of the result')
        return
    if not pv:
        ctx.undecided('unpack: ' + short(r))
        return
    e = pv[0]
    v = strip_mut(e.args[-1])
    ctx.ob('pair', 'unpack', isf(tup(v, 0), 'dist') and isf(tup(v, 1), 'index'), e, 'the pairs returned are not (distance, index): ' + short(v))
    ctx.ob('all-returned', 'unpack', all(a.op == 'is' and a.a[1] == 'Some' or loopish(a) for c in e.guard for a in c) and filtered_free(r), e, 'kept neighbours are left out of the result: ' + short(e.guard))
    if e.name.split('::')[-1] in ('push_front', 'insert'):
        flips += 1
    ctx.ob('ascending', 'unpack', flips % 2 == 1, e, 'the result is not in ascending order: the heap gives the largest first')
    for x, y, g in loop_exits(fr, lambda e: e.kind == 'call' and e.name == 'BinaryHeap::pop'):
        ctx.ob('drains', 'unpack', all(any(a.op == 'is' and a.a[1] == 'None' for a in c) for c in g), b.name, 'the result stops before the heap is empty: ' + short(g))
