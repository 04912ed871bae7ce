"""T05, T06, T09, T10, T11: where points end up, paths through the tree, seeding, completion, parameters."""
from itertools import product
from rules import prop
from rules.persist import field_of
from rules.tree import success, BUILD
from rules.build import NODES, dist_call
from rulelib import *
import sem


def get_final(t):
    t = strip(t)
    return t if t.op == 'call' and t.a[0].endswith('MonoReadHandle::get_and') and isf(t.a[1][0], 'final_addresses') else None


def pt_dists(t):
    t = strip(t)
    return t if t.op == 'call' and t.a[0].endswith('::distances_to_point') else None


def worklist(evs, pred):
    """the vectors a loop takes its next item from, with [(guard, value)] of what is put into them"""
    out = []
    for e in evs:
        if e.kind == 'call' and e.name.split('::')[-1] in ('pop', 'pop_front') and strip_mut(e.args[0]).op == 'new' and strip_mut(e.args[0]) not in [v for v, _, _ in out]:
            v = strip_mut(e.args[0])
            rest = [x for x in evs if not (x.kind == 'call' and x.args and strip_mut(x.args[0]) is v and x.name.split('::')[-1] in ('pop', 'pop_front'))]
            try:
                cs = contribs(v, rest)
            except Unknown:
                continue
            out.append((v, e, cs))
    return out


# ---- T05 -------------------------------------------------------------------------

@prop('T05')
def recorded_at_build(ctx):
    """every singleton and every leaf centre is recorded at the address of its node"""
    b = ctx.body('CoverTreeBuilder', 'build')
    evs = ctx.events(b, BUILD)
    got = lambda t: is_call(t, 'Receiver::recv')

    def part(t, i):
        t = strip_mut(t)
        return t.op == 'field' and t.a[1] == str(i) and got(t.a[0])
    node = lambda t: part(t, 2)
    r = success(ctx.frame(b, BUILD))
    fa = field_of(r[0], 'final_addresses') if len(r) == 1 else None
    ins = [e for e in evs if e.kind == 'call' and e.name.endswith('MonoWriteHandle::insert') and (fa is not None and strip_mut(e.args[0]) is strip_mut(fa) or is_call(strip_mut(e.args[0]).a[0] if strip_mut(e.args[0]).op == 'field' else e.args[0], 'monomap::new'))]
    if not ins:
        ctx.undecided('build: recording of addresses')
        return
    record_cells(ctx, b, evs, ins, node, lambda t: part(t, 0), lambda t: part(t, 1), lambda t: False, 'build', got)


def record_cells(ctx, b, evs, ins, node, scale, centre, whole, nm, ready):
    single = lambda t: is_elem(t, lambda x: isf(x, 'singles_indexes') and node(strip(x.a[0])))
    for leafy, some in product((True, False), (True, False)):
        def leaf(t):
            if t.op == 'is' and isf(t.a[0], 'children') and node(strip(strip(t.a[0]).a[0])):
                return (t.a[1] == 'None') == leafy
            if t.op == 'each' and isf(t.a[0], 'singles_indexes'):
                return some
            if t.op == 'is' and (ready(t.a[0]) or is_node(t.a[0]) is not None):
                return t.a[1] in ('Some', 'Ok')
            if t.op in ('empty', 'nonempty') and isf(t.a[0], 'singles_indexes'):
                return (t.op == 'nonempty') == some
            if t.op in ('empty', 'nonempty'):
                return t.op == 'nonempty'
            return None
        s = Sim(evs, leaf)
        key = '%s, %s%s' % (nm, 'leaf' if leafy else 'inner node', ' with singletons' if some else '')
        try:
            f = s.fired(ins)
        except Unknown as u:
            ctx.undecided('%s: %s' % (key, short(u)))
            continue
        sk = [e for e in f if single(strip_mut(e.args[1]))]
        ck = [e for e in f if centre(strip_mut(e.args[1]))]
        ctx.ob('final-address', key + ': singletons', (len(sk) >= 1) == some, ins[0], 'the singletons of a node are %srecorded' % ('not ' if some else ''))
        ctx.ob('final-address', key + ': centre', (len(ck) >= 1) == leafy, ins[0], 'the centre of %s' % ('a leaf is not recorded at the leaf' if leafy else 'an inner node is recorded there although it goes on to the nested child'))
        ctx.tri('final-address', key + ': nothing else', True if len(sk) + len(ck) == len(f) else None, ins[0], 'records something else')
        for e in sk + ck:
            v = strip_mut(e.args[2])
            ok = whole(v) or scale(strip_mut(tup(v, 0))) and centre(strip_mut(tup(v, 1)))
            ctx.ob('final-address', key + ': address', ok, e, 'a point is recorded under another address than that of its node: ' + short(v))


@prop('T05')
def recorded_on_refresh(ctx):
    """refresh_final_indexes visits every node from the root and records the same addresses"""
    b = ctx.body('CoverTreeWriter', 'refresh_final_indexes')
    op = TREE + ('MonoWriteHandle::insert', 'MonoWriteHandle::refresh')
    evs = ctx.events(b, op)
    wl = [w for w in worklist(evs, None)]
    ins = [e for e in evs if e.kind == 'call' and e.name.endswith('MonoWriteHandle::insert') and selff(e.args[0], 'final_addresses')]
    if len(wl) != 1 or not ins:
        ctx.undecided('refresh_final_indexes: work list')
        return
    v, pop, cs = wl[0]
    cur = lambda t: is_call(t, 'pop', 'pop_front') and strip_mut(strip(t).a[1][0]) is v
    def node(t):
        a = is_node(t)
        return a is not None and cur(a)
    comp = lambda i: lambda t: strip_mut(t).op == 'field' and strip_mut(t).a[1] == str(i) and cur(strip_mut(t).a[0])
    record_cells(ctx, b, evs, ins, node, comp(0), comp(1), cur, 'refresh_final_indexes', cur)
    root = [x for g, x in cs if selff(x, 'root_address') and strip_noise(g) == TRUE]
    ctx.ob('visit', 'starts at the root', bool(root), b.name, 'the walk does not start at the root')
    kid = [(g, x) for g, x in cs if is_elem(x, lambda y: isf(y, 'children', 'addresses') and node(strip(strip(strip(y).a[0]).a[0])))]
    nest = [(g, x) for g, x in cs if strip_mut(x).op == 'agg' and isf(tup(x, 0), 'children', 'nested_scale') and (comp(1)(tup(x, 1)))]
    rest = [x for g, x in cs if x not in [y for y in root] and (g, x) not in kid and (g, x) not in nest]
    for nm, l in (('children', kid), ('nested child', nest)):
        if not l and rest:
            ctx.undecided('refresh_final_indexes: %s %s' % (nm, [short(x) for x in rest]))
            continue
        ctx.ob('visit', nm, bool(l), b.name, 'the %s of a node are not visited' % nm)
        for g, x in l:
            def leaf(t):
                if t.op == 'is' and isf(t.a[0], 'children'):
                    return t.a[1] == 'Some'
                if t.op == 'is' and (cur(t.a[0]) or is_node(t.a[0]) is not None):
                    return t.a[1] in ('Some', 'Ok')
                if t.op == 'each':
                    return True
                if t.op in ('empty', 'nonempty'):
                    return t.op == 'nonempty'
                return None
            ctx.tri('visit', nm + ' always', Model(leaf).guard(g), b.name, 'the %s of some inner nodes are not visited' % nm)
    ctx.ob('visit', 'repeats', in_cycle(pop), pop, 'only one node is visited')
    rf = [e for e in evs if e.kind == 'call' and e.name.endswith('MonoWriteHandle::refresh') and selff(e.args[0], 'final_addresses')]
    ctx.ob('publish', 'refresh_final_indexes', any(strip_noise(e.guard) == TRUE and event_after(e, ins) for e in rf), rf[0] if rf else b.name, 'the recorded addresses are not published')


@prop('T05')
def known_path(ctx):
    """the path of an indexed point: its final address and all ancestors, root first, with its distances"""
    b = ctx.body('CoverTreeReader', 'known_path')
    evs = ctx.events(b, TREE)
    look = [e for e in evs if e.kind == 'call' and e.name.endswith('MonoReadHandle::get_and') and isf(e.args[0], 'final_addresses')]
    if not look:
        ctx.undecided('known_path: lookup')
        return
    for e in look:
        ctx.ob('lookup', 'known_path', selff(e.args[0], 'final_addresses') and is_param(e.args[1], 1), e, 'the final address of another point is looked up')
    ds = [e for e in evs if e.kind == 'call' and e.name.endswith('::distances_to_point_index')]
    pushes = [e for e in evs if e.kind == 'call' and e.name == 'Vec::push']
    vecs = {strip_mut(e.args[0]) for e in pushes}
    if len(ds) != 1 or len(vecs) != 1:
        ctx.undecided('known_path: %d distance calls, %d vectors' % (len(ds), len(vecs)))
        return
    v = list(vecs)[0]
    vals, bad = [], []
    for e in pushes:
        vals += values(e.args[1], evs)
    start = [x for x in vals if get_final(x) is not None and strip_mut(x).op != 'field' and x is not None]
    up = [x for x in vals if isf(x, 'parent_address') and is_node(strip(x).a[0]) is not None]
    # an address is a tuple rebuilt from its components, or the whole value
    ctx.tri('path', 'final address', True if start else None if len(vals) > len(up) else False, b.name, 'the path does not hold the final address of the point: ' + short(vals))
    if not up and len(vals) > len(start):
        ctx.undecided('known_path: ancestors ' + short(vals))
    else:
        ctx.ob('path', 'parents', bool(up), b.name, 'the path does not continue with the parents')
    for x in up:
        a = is_node(strip(x).a[0])
        av = values(a, evs) if strip_mut(a).op != 'agg' else values(tup(a, 1), evs)
        ok = any(get_final(y) is not None or (strip_mut(y).op == 'field' and get_final(strip_mut(y).a[0]) is not None) for y in av)
        ctx.tri('path', 'chain', True if ok else None, b.name, 'parent of ' + short(a))
    ctx.ob('path', 'repeats', all(in_cycle(e) for e in pushes if len(pushes) == 1), pushes[0], 'the path stops at the first node')
    fr = ctx.frame(b, TREE)
    cut = [e for e in evs if e.kind == 'call' and e.args and strip_mut(e.args[0]) is v and e.name.split('::')[-1] in ('dedup', 'dedup_by', 'dedup_by_key', 'retain', 'truncate', 'swap_remove', 'remove')]
    ctx.ob('path', 'nothing taken out', not cut, cut[0] if cut else b.name, 'nodes of the path are left out of it')
    root = (40, 7)
    for pa, prev, cur in [(p, q, (1, 9)) for p, q in product((root, (30, 8), (2, 9)), ((0, 9), (-3, 4)))] + [(None, (3, 9), root)]:
        def leaf(t):
            if t.op == 'is':
                if pa is None and isf(t.a[0], 'parent_address'):
                    return t.a[1] == 'None'
                return t.a[1] in ('Some', 'Ok')
            if t.op in ('empty', 'nonempty') and strip_mut(t.a[0]) is v:
                return t.op == 'nonempty'
            if len_of(t) is not None and strip_mut(len_of(t)) is v:
                return 1
            if pa is None and isf(t, 'parent_address'):
                return 'None'
            if pa is None and t.op == 'field' and isf(t.a[0], 'parent_address'):
                return None
            if t.op == 'call' and t.a[0].split('::')[-1] == 'last' and strip_mut(t.a[1][0]) is v:
                return ('Some', prev)
            if t.op == 'field' and t.a[1] in ('0', '1'):
                i = int(t.a[1])
                if isf(t.a[0], 'parent_address'):
                    return pa[i]
                if selff(t.a[0], 'root_address'):
                    return root[i]
                if strip(t.a[0]).op == 'call' and strip(t.a[0]).a[0].split('::')[-1] == 'last' and strip_mut(strip(t.a[0]).a[1][0]) is v:
                    return prev[i]
                if get_final(t.a[0]) is not None or strip(t.a[0]).op == 'rec':
                    return cur[i]
                if payload(t.a[0]).op == 'phi' and any(y.op == 'rec' or get_final(y) is not None for y in subterms(t.a[0])):
                    return cur[i]
            if selff(t, 'root_address'):
                return root
            if isf(t, 'parent_address'):
                return pa if t.op == 'payload' else ('Some', pa)
            if get_final(t) is not None and t.op == 'payload':
                return cur
            if t.op == 'phi' and any(y.op == 'rec' for y in subterms(t)):
                vs = [strip_mut(x) for x in variants(t)]
                if all(x.op == 'field' and x.a[1] == vs[0].a[1] for x in vs) and vs[0].a[1] in ('0', '1'):
                    return cur[int(vs[0].a[1])]
                if all(x.op == 'rec' or get_final(x) is not None or isf(x, 'parent_address') for x in map(payload, vs)):
                    return cur
            return None
        m = Model(leaf)
        key = 'parent %s of %s, after %s' % (pa, cur, prev)
        if pa is None:
            # the root itself
            for e in pushes:
                if in_cycle(e) and any(mentions(a, lambda x: isf(x, 'root_address')) for c in e.guard for a in c):
                    try:
                        here = m.val(e.args[1]) == cur
                    except Unknown:
                        here = None
                    k = m.guard(e.guard) if here else None
                    ctx.tri('path', 'the root', None if k is None else k, e, 'the root is left out')
            continue
        for e in pushes:
            if in_cycle(e):
                k = m.guard(e.guard)
                ctx.tri('path', 'every node, ' + key, None if k is None else k, e, 'a node between the point and the root is left out')
        for x, y, g in exits_of(fr, lambda e: e.kind == 'call' and e.name == 'Vec::push'):
            k = m.guard(g)
            ctx.tri('path', 'exit, ' + key, None if k is None else not k, b.name, 'the path can stop before the root')
        for e in evs:
            if e.kind == 'set' and mentions(e.val, lambda x: isf(x, 'parent_address')) and in_cycle(e):
                for g, w in alts(strip_mut(e.val)):
                    if w.op == 'agg' and w.a[0].endswith('None'):
                        k = m.guard(g)
                        ctx.tri('path', 'stop, ' + key, None if k is None else not k, e, 'the path stops although the node has a parent')
    rev = [e for e in evs if e.kind == 'call' and e.name.split('::')[-1] == 'reverse' and strip_mut(e.args[0]) is v]
    d = ds[0]
    src = strip_mut(d.args[2])
    ctx.ob('distances', 'point', is_param(d.args[1], 1), d, 'the distances are not those of the point')
    cen = src.op == 'mapped' and strip_mut(src.a[1]).op == 'field' and strip_mut(src.a[1]).a[1] == '1'
    ctx.tri('distances', 'centres', True if cen and is_elem(strip_mut(src.a[1]).a[0], lambda x: x is v) else None, d, 'distances to ' + short(src))
    ret = strip_mut(ctx.frame(b, TREE).ret())
    seq = None
    for x in subterms(ret):
        if x.op == 'optmap' and get_final(x.a[0]) is not None:
            seq = strip_mut(x.a[1])
    if seq is None or not cen:
        ctx.undecided('known_path: result ' + short(ret))
        return
    el = strip_mut(sem.elem(seq))
    # the elements are paired position by position; reversals between the two uses of the path break it
    def count_rev(t):
        n = 0
        t = strip_mut(t)
        while True:
            if t.op == 'rev':
                n += 1
            elif t.op not in ('mapped', 'enumerate'):
                return n, t
            t = strip_mut(t.a[0])
    base = seq.a[0] if seq.op == 'mapped' else seq
    n0, z = count_rev(base)
    if el.op == 'agg' and len(el.a[1]) == 2:
        ctx.tri('pairing', 'distance first', True if is_elem(el.a[1][0][1], lambda x: mentions(x, lambda y: y is strip(d.ret))) else None, b.name, short(el.a[1][0][1]))
    if z.op == 'zip':
        l, r = count_rev(z.a[0]), count_rev(z.a[1])
        reads = [e for e in evs if e.kind == 'call' and e.args and e not in rev and e.name.split('::')[-1] in ('iter', 'into_iter', 'collect', 'zip', 'map', 'index', 'distances_to_point_index') and any(strip_mut(a) is v or mentions(a, lambda x: x is v) for a in e.args) and not event_reaches_push(e, pushes)]
        between = [e for e in rev if any(not event_before(e, r) for r in reads)]
        mis = (l[0] + r[0] + count_rev(src)[0] + len(between)) % 2 if not any(in_cycle(e) for e in rev) else None
        ctx.tri('pairing', 'aligned', None if mis is None else not mis, d, 'the distances and the addresses are paired in opposite orders')
        tot = (n0 + r[0] + len(rev)) % 2
        ctx.ob('order', 'root first', tot == 1, rev[0] if rev else b.name, 'the path is not given from the root down')
    ok = [e for e in evs if e.kind == 'call' and e.name.split('::')[-1] == 'ok_or']
    for e in ok:
        x = strip_mut(e.args[1])
        if x.op == 'agg' and 'IndexNotInTree' in x.a[0]:
            ctx.ob('absent', 'known_path', is_param(x.a[1][0][1], 1), e, 'the error names another point')


def event_reaches_push(e, pushes):
    return any(event_reaches(e, p) for p in pushes)


# ---- T06 -------------------------------------------------------------------------

CHILD = ('CoverNode::nearest_covering_child', 'CoverNode::first_covering_child')


@prop('T06')
def path(ctx):
    """the path of a query point starts at the root and follows the covering child chosen by the partition type"""
    b = ctx.body('CoverTreeReader', 'path')
    op = TREE + CHILD
    evs = ctx.events(b, op)
    fr = ctx.frame(b, op)
    step = lambda t: is_call(t, *CHILD)
    cs = [e for e in evs if e.kind == 'call' and e.name in CHILD]
    for pt in ('Nearest', 'First'):
        def leaf(t):
            if t.op == 'is' and isf(t.a[0], 'partition_type'):
                return t.a[1] == pt
            if t.op == 'is':
                return t.a[1] in ('Some', 'Ok')
            return None
        got = []
        for e in cs:
            k = Model(leaf).guard(e.guard)
            if k is None:
                got = None
                break
            if k:
                got.append(e.name)
        ctx.tri('partition', pt, None if got is None else got == ['CoverNode::%s_covering_child' % pt.lower()], cs[0] if cs else b.name, 'a %s tree is descended with %s' % (pt, got))
    root = lambda t: selff(t, 'root_address')
    d0 = lambda t: strip_mut(t).op == 'call' and strip_mut(t).a[0].endswith('Metric::dist') and any(
        is_call(x, 'PointCloud::point') and selff(tup_base(strip(x).a[1][1]), 'root_address') and mentions(y, par(1)) for x, y in (strip_mut(t).a[1][:2], strip_mut(t).a[1][1::-1]))
    res = lambda t, i: strip_mut(t).op == 'field' and strip_mut(t).a[1] == str(i) and step(strip_mut(t).a[0])
    for e in cs:
        nm = e.name.split('::')[-1]
        a = is_node(e.args[0])
        av = values(a, evs) if a is not None and strip_mut(a).op != 'agg' else []
        if a is not None and strip_mut(a).op == 'agg':
            ok = True
            for i in (0, 1):
                vs = values(tup(a, i), evs)
                ok = ok and any(selff(x, 'root_address', str(i)) for x in vs) and any(strip_mut(x).op == 'field' and strip_mut(x).a[1] == str(i) and res(strip_mut(x).a[0], 1) for x in vs)
                other = [x for x in vs if not selff(x, 'root_address', str(i)) and not (strip_mut(x).op == 'field' and strip_mut(x).a[1] == str(i) and res(strip_mut(x).a[0], 1))]
                ctx.tri('descend', nm + ' address %d' % i, (True if not other else None) if ok or other else False, e, 'the walk does not start at the root and continue at the chosen child: %s' % [short(x) for x in vs])
        elif av:
            other = [x for x in av if not root(x) and not res(x, 1)]
            ok = any(root(x) for x in av) and any(res(x, 1) for x in av)
            ctx.tri('descend', nm + ' address', (True if not other else None) if ok or other else False, e, 'the walk does not start at the root and continue at the chosen child')
        else:
            ctx.undecided('path: node ' + short(e.args[0]))
        dv = values(e.args[2], evs)
        other = [x for x in dv if not d0(x) and not res(x, 0)]
        ok = any(d0(x) for x in dv) and any(res(x, 0) for x in dv)
        ctx.tri('descend', nm + ' distance', (True if not other else None) if ok or other else False, e, 'the distance to the centre of the current node is not the one passed on: %s' % [short(x) for x in dv])
        ctx.ob('descend', nm + ' arguments', isf(e.args[1], 'scale_base') and is_param(e.args[3], 1) and isf(e.args[4], 'point_cloud'), e, 'the child is chosen with other arguments')
    r = success(fr)
    if len(r) != 1:
        ctx.undecided('path: result')
        return
    try:
        con = contribs(r[0], evs)
    except Unknown:
        ctx.undecided('path: result ' + short(r[0]))
        return
    first = [(g, x) for g, x in con if strip_mut(x).op == 'agg' and d0(tup(x, 0)) and root(tup(x, 1))]
    then = [(g, x) for g, x in con if all(step(y) or res(tup(y, 0), 0) and res(tup(y, 1), 1) for y in variants(x))]
    other = len(con) - len(first) - len(then)
    ctx.tri('trace', 'root', True if len(first) == 1 and strip_noise(first[0][0]) == TRUE else None if other else False, b.name, 'the path does not start with the root and its distance')
    ctx.tri('trace', 'children', True if len(then) == 1 else None if other else False, b.name, 'the chosen children are not added to the path')

    cells_ = list(product(('Nearest', 'First'), (0.0, 3.0, 9.0)))

    def model(pt, r):
        def leaf(t):
            if t.op == 'is':
                return t.a[1] == pt if isf(t.a[0], 'partition_type') else t.a[1] in ('Some', 'Ok')
            if res(t, 0):
                return r
            if d0(t):
                return 5.0
            if t.op == 'field' and t.a[1] in ('0', '1'):
                if res(t.a[0], 1):
                    return 3 if t.a[1] == '0' else 8
                if root(t.a[0]) or strip(t.a[0]).op == 'rec':
                    return 6 if t.a[1] == '0' else 7
            if t.op == 'phi' and any(d0(x) for x in variants(t)) and any(x.op == 'rec' for x in variants(t)):
                return 5.0
            if t.op == 'rec' and any(e.kind == 'set' and e.lval.op == 'var' and e.lval.a[0] == t.a[0] and e.lval.a[1] == t.a[1] and d0(e.val) for e in evs):
                return 5.0
            return None
        return Model(leaf)
    for g, x in then:
        ks = [model(*c).guard(g) for c in cells_]
        ctx.tri('trace', 'children always', False if False in ks else None if None in ks else True, b.name, 'a chosen child is not always added to the path')
    for x, y, g in exits_of(fr, lambda e: e.kind == 'call' and e.name == 'Vec::push'):
        if all(any(a.op == 'try' and a.a[1] == 'err' for a in cl) for cl in g):
            continue
        ks = [model(*c).guard(g) for c in cells_]
        ctx.tri('trace', 'exit', False if True in ks else None if None in ks else True, b.name, 'the walk can stop although a covering child was found')
    for e in evs:
        if e.kind == 'set' and e.lval.op == 'var' and in_cycle(e) and any(f.kind == 'set' and f.lval is e.lval and d0(f.val) for f in evs):
            for c in cells_:
                m = model(*c)
                k = m.guard(e.guard)
                try:
                    v = m.val(e.val)
                except Unknown:
                    v = None
                ctx.tri('descend', 'distance updated %s %s' % c, None if k is None or v is None else k and v == c[1], e, 'the distance kept for the next step is %s instead of the %s to the chosen child' % (v, c[1]))


def tup_base(t):
    t = strip_mut(t)
    return t.a[0] if t.op == 'field' and t.a[1] == '1' else t


def child_outcome(ctx, nm, b, ret, sim, kids, mval, idx):
    """('none'|'nested'|'child'|'error'|'?', term) of the result in a cell"""
    got = []
    for g, v in alts(ret):
        k = sim.guard(g)
        if k is None:
            return None
        if k:
            got.append((g, v))
    if len(got) > 1:
        # what follows a loop is not reached when the loop is left with a result
        first = [(g, v) for g, v in got if not (g and all(any(a.op == 'done' for a in c) for c in g))]
        got = first if len(first) == 1 else got
    if len(got) != 1:
        return None
    v = strip_mut(got[0][1])
    if v.op != 'ok':
        return ('error', v)
    v = sim.term(payload(v))
    if v.op == 'agg' and v.a[0].split('::')[-1] == 'None':
        return ('none', v)
    if v.op != 'some':
        return None
    v = payload(v)
    d, a = strip_mut(tup(v, 0)), strip_mut(tup(v, 1))
    if is_param(d, 2) and isf(tup(a, 0), 'nested_scale') and selff(tup(a, 1), 'address', '1'):
        return ('nested', v)
    if mval(d) and (a.op == 'index' and kids(a.a[0]) and idx(a.a[1]) or is_elem(a, kids)):
        return ('child', v)
    try:
        n = (sim.val(d), sim.val(tup(a, 0)), sim.val(tup(a, 1)))
    except Unknown:
        return ('?', v)
    return (n, v)


@prop('T06')
def nearest_covering_child(ctx):
    """the nearest of nested and other children if the point is strictly inside its radius"""
    b = ctx.body('CoverNode', 'nearest_covering_child')
    evs = ctx.events(b)
    fr = ctx.frame(b)
    kids = lambda t: isf(t, 'children', 'addresses')
    ds = [e for e in evs if e.kind == 'call' and e.name.endswith('::distances_to_point')]
    dist_args(ctx, 'nearest_covering_child', b, ds, kids)
    mb = [e for e in evs if e.kind == 'call' and e.name in ('Iterator::min_by', 'Iterator::max_by')]
    if len(mb) != 1:
        src = lambda x: pt_dists(x) is not None
        v, e, why = smallest_loop(evs, lambda t: is_elem(t, src), lambda t: strip_mut(t).op in ('idx', 'rangeidx'))
        ctx.tri('nearest', 'loop', v, e or b.name, 'not the nearest child is chosen: ' + why)
        return
    seq = strip_mut(mb[0].args[0])
    cut = mentions(seq, lambda x: x.op in ('taken', 'stepby', 'filtered') and mentions(x, lambda y: pt_dists(y) is not None))
    ctx.tri('nearest', 'candidates', True if seq.op == 'enumerate' and pt_dists(seq.a[0]) is not None else False if cut else None, mb[0], 'not all children are candidates: ' + short(seq))
    dr, key = compares(mb[0].ret.a[1][1] if mb[0].ret.op == 'call' else mb[0].ret)
    if mb[0].name.endswith('max_by'):
        dr = -dr
    ctx.tri('nearest', 'order', None if dr == 0 else dr == 1, mb[0], 'not the nearest child is chosen')
    MB = strip(mb[0].ret)
    ret = fr.ret()
    ns, cs = 2, 1
    mval = lambda t: strip_mut(t).op == 'field' and strip_mut(t).a[1] == '1' and strip(strip_mut(t).a[0]) is MB or t.op == 'const'
    idx = lambda t: strip_mut(t).op == 'field' and strip_mut(t).a[1] == '0' and strip(strip_mut(t).a[0]) is MB or intval(t) == 0
    for kid, has, c, m in product((True, False), (True, False), (1.0, 2.0, 3.0, 4.0, 5.0), (0.5, 1.0, 1.5, 2.0, 2.5, 3.5, 4.5)):
        if not has and m != 0.5 or not kid and (has or c != 1.0):
            continue

        def leaf(t):
            if t.op == 'is' and isf(t.a[0], 'children'):
                return (t.a[1] == 'Some') == kid
            if strip(t) is MB and t.op == 'call':
                return ('Some', ('pair',)) if has else 'None'
            if t.op == 'field' and strip(t.a[0]) is MB:
                return m if t.a[1] == '1' else 0
            if is_param(t, 2):
                return c
            if is_param(t, 1):
                return 2.0
            if isf(t, 'nested_scale'):
                return ns
            if t.op == 'field' and t.a[1] in ('0', '1') and strip_mut(t.a[0]).op == 'index' and kids(strip_mut(t.a[0]).a[0]):
                return cs if t.a[1] == '0' else 200
            if selff(t, 'address', '0'):
                return 9
            if selff(t, 'address', '1'):
                return 100
            if selff(t, 'radius'):
                return 3.2
            if t.op in ('empty', 'nonempty') and (kids(t.a[0]) or pt_dists(t.a[0]) is not None):
                return (t.op == 'nonempty') == has
            if len_of(t) is not None and (kids(len_of(t)) or pt_dists(len_of(t)) is not None):
                return 3 if has else 0
            return None
        s = Sim(evs, leaf)
        key = 'children=%s others=%s own %s nearest other %s (radii 4 and 2)' % (kid, has, c, m)
        o = child_outcome(ctx, 'nearest', b, ret, s, kids, mval, idx)
        if not kid:
            want = 'none'
        elif not has or c < m:
            want = 'nested' if c < 4 else 'none'
        elif c == m:
            want = None
        else:
            want = 'child' if m < 2 else 'none'
        if want is None:
            continue
        ctx.tri('nearest', key, None if o is None or o[0] == '?' and want != 'none' else o[0] == want, b.name, 'the point goes to %s instead of %s' % (o and o[0], want))


def dist_args(ctx, nm, b, ds, kids):
    if len(ds) != 1:
        ctx.undecided(nm + ': distances')
        return
    d = ds[0]
    src = strip_mut(d.args[2])
    ctx.ob('distances', nm + ' point', is_param(d.args[1], 3) and is_param(d.args[0], 4), d, 'the distances are not those of the query point')
    ok = src.op == 'mapped' and kids(src.a[0]) and strip_mut(src.a[1]).op == 'field' and strip_mut(src.a[1]).a[1] == '1' and is_elem(strip_mut(src.a[1]).a[0], kids)
    ctx.tri('distances', nm + ' centres', True if ok else None, d, 'distances to ' + short(src))


@prop('T06')
def first_covering_child(ctx):
    """the nested child if it covers the point, else the first other child that does"""
    b = ctx.body('CoverNode', 'first_covering_child')
    evs = ctx.events(b)
    ret = ctx.frame(b).ret()
    kids = lambda t: isf(t, 'children', 'addresses')
    ds = [e for e in evs if e.kind == 'call' and e.name.endswith('::distances_to_point')]
    dist_args(ctx, 'first_covering_child', b, ds, kids)
    dv = lambda t: is_elem(t, lambda x: pt_dists(x) is not None)
    for kid, some, c, m in product((True, False), (True, False), (1.0, 4.0, 5.0), (1.0, 2.0, 3.0)):
        if not kid and (some or c != 1.0) or not some and m != 1.0:
            continue

        def leaf(t):
            if t.op == 'is' and isf(t.a[0], 'children'):
                return (t.a[1] == 'Some') == kid
            if is_param(t, 2):
                return c
            if is_param(t, 1):
                return 2.0
            if isf(t, 'nested_scale'):
                return 2
            if dv(t):
                return m
            if t.op == 'field' and t.a[1] in ('0', '1') and is_elem(t.a[0], kids):
                return 1 if t.a[1] == '0' else 200
            if selff(t, 'address', '0'):
                return 9
            if selff(t, 'address', '1'):
                return 100
            if selff(t, 'radius'):
                return 3.2
            if t.op in ('empty', 'nonempty') and (kids(t.a[0]) or pt_dists(t.a[0]) is not None):
                return (t.op == 'nonempty') == some
            if len_of(t) is not None and (kids(len_of(t)) or pt_dists(len_of(t)) is not None):
                return 1 if some else 0
            if t.op == 'each' and (kids(t.a[0]) or pt_dists(t.a[0]) is not None):
                return some
            return None
        s = Sim(evs, leaf)
        o = None
        try:
            o = child_outcome(ctx, 'first', b, ret, s, kids, dv, lambda t: False)
        except Unknown:
            pass
        want = 'none' if not kid else 'nested' if c < 4 else 'child' if some and m < 2 else 'none'
        if o is None:
            # the fall-through result of a loop with an early return carries no condition of its own
            hit = []
            for g, v in alts(ret):
                try:
                    k = s.guard(g)
                except Unknown:
                    k = None
                hit.append((k, v))
            t = [v for k, v in hit if k]
            o = None
            if not [1 for k, _ in hit if k is None]:
                cls = []
                for v in t:
                    v = strip_mut(v)
                    x = s.term(payload(v)) if v.op == 'ok' else v
                    cls.append('none' if x.op == 'agg' and x.a[0].endswith('None') else 'some')
                if 'some' in cls and 'none' in cls:
                    keep = [v for v, k in zip(t, cls) if k == 'some']
                    if len(keep) == 1:
                        o = child_outcome(ctx, 'first', b, mk('phi', ((TRUE, keep[0]),)), s, kids, dv, lambda t: False)
        key = 'children=%s others=%s own %s other %s (radii 4 and 2)' % (kid, some, c, m)
        ctx.tri('first', key, None if o is None or o[0] == '?' and want != 'none' else o[0] == want, b.name, 'the point goes to %s instead of %s' % (o and o[0], want))
    of = lambda t: mentions(t, lambda x: kids(x) or pt_dists(x) is not None)
    for e in evs:
        nm = e.name.split('::')[-1] if e.kind == 'call' and e.name.startswith('Iterator::') or e.kind == 'call' and e.name.startswith('DoubleEndedIterator::') else ''
        if nm in ('last', 'rfind', 'rposition', 'next_back', 'min_by', 'max_by', 'min_by_key', 'max_by_key', 'find', 'position', 'find_map') and of(e.args[0]):
            back = bool([x for x in subterms(e.args[0]) if x.op == 'rev']) != (nm in ('last', 'rfind', 'rposition', 'next_back'))
            ctx.ob('first', 'selection', not back and not nm.startswith(('min', 'max')), e, 'not the first covering child is chosen (%s)' % nm)
    for g, v in alts(ret):
        for a in atoms_of(g):
            if a.op == 'each':
                t = strip_mut(a.a[0])
                if mentions(t, lambda x: x.op in ('rev', 'sorted')):
                    ctx.ob('first', 'order', False, b.name, 'the children are not tried in their order')


# ---- T09 -------------------------------------------------------------------------

ENTROPY = ('from_entropy', 'thread_rng', 'from_os_rng', 'random', 'from_rng', 'RandomState::new')


@prop('T09')
def seeding(ctx):
    """all randomness of a build comes from the seed and the address of the node"""
    for meth in ('split_nearest', 'split_first'):
        b = ctx.body('BuilderNode', meth)
        evs = ctx.events(b, NODES)
        seeds = calls(evs, 'seed_from_u64', 'from_seed')
        ent = [e for e in evs if e.kind == 'call' and any(e.name.split('::')[-1] == x for x in ENTROPY if '::' not in x) and 'rand' in e.full.lower() or e.kind == 'call' and e.name.endswith('SeedableRng::from_entropy')]
        use = [e for e in evs if e.kind == 'call' and e.name in ('NearestCoveredData::split', 'UncoveredData::pick_center')]
        for e in ent:
            k = Model(lambda t: t.a[1] == 'Some' if t.op == 'is' and isf(t.a[0], 'rng_seed') else None).guard(e.guard)
            ctx.tri('entropy', meth, None if k is None else not k, e, 'entropy is used although a seed is set')
        for e in seeds:
            t = e.args[0] if 'seed_from' in e.name or len(e.args) == 1 else e.args[-1]
            leaves = [x for x in val_subterms(t) if x.op in ('param', 'call', 'new', 'static', 'rec', 'var')]
            calls_ = [x for x in leaves if x.op == 'call' and x.a[0].split('::')[-1] not in ('hash', 'wrapping_add', 'wrapping_mul', 'rotate_left', 'center_index', 'address', 'bitxor', 'xor')]
            bad = [x for x in calls_ if x.a[0].split('::')[-1] in ('load', 'fetch_add', 'now', 'elapsed', 'id', 'current', 'current_thread_index', 'as_ptr', 'len', 'random', 'gen')]
            ctx.tri('seed', meth + ' inputs', False if bad else True if not calls_ else None, e, 'the seed depends on %s' % [short(x) for x in bad])
            ctx.ob('seed', meth + ' uses rng_seed', mentions(t, lambda x: isf(x, 'rng_seed')), e, 'the generator is not seeded with the seed of the tree: ' + short(t))
            for k, l in cell_seed(t):
                ctx.ob('seed', '%s %s' % (meth, k), l, e, 'the generator is not seeded with (seed xor centre of the node): ' + short(t))
        if not seeds:
            ctx.ob('seed', meth + ' seeded', not ent, b.name, 'the seed is not used')
        for e in use:
            r = e.args[-1]
            s = Model(lambda t: t.a[1] == 'Some' if t.op == 'is' and isf(t.a[0], 'rng_seed') else None)
            vs = []
            for g, v in alts(strip_mut(r)):
                k = s.guard(g)
                if k is not False:
                    vs.append(v)
            ok = bool(vs) and all(mentions_deep(v, lambda x: x.op in ('call', 'new') and x.a[0].split('::')[-1] in ('seed_from_u64', 'from_seed')) for v in vs)
            badv = [v for v in vs if mentions_deep(v, lambda x: x.op in ('call', 'new') and x.a[0].split('::')[-1] in ENTROPY)]
            ctx.tri('rng', meth + ' ' + e.name.split('::')[-1], True if ok else False if badv else None, e, 'the choice of centres does not use the seeded generator: ' + short(r))
    for o, m in (('UncoveredData', 'pick_center'), ('NearestCoveredData', 'cover_thyself'), ('NearestCoveredData', 'split'), ('FirstCoveredData', 'split'), ('NearestCoveredData', 'assign_to_nearest'),
                 ('NearestCoveredData', 'new'), ('FirstCoveredData', 'new'), ('BuilderNode', 'new'), ('BuilderNode', 'split')):
        try:
            b = ctx.body(o, m)
        except Missing:
            continue
        evs = ctx.events(b, NODES if o == 'BuilderNode' else ())
        for e in evs:
            if e.kind != 'call':
                continue
            last = e.name.split('::')[-1]
            if last in ('thread_rng', 'from_entropy', 'from_os_rng') or e.name in ('rand::random', 'SystemTime::now', 'Instant::now', 'RandomState::new') or last == 'random' and 'rand' in e.full:
                g = Model(lambda t: t.a[1] == 'Some' if t.op == 'is' and isf(t.a[0], 'rng_seed') else None).guard(e.guard)
                ctx.tri('entropy', '%s::%s' % (o, m), None if g is None else not g, e, 'a source of entropy is used while building')
            if last in ('gen_range', 'gen', 'choose', 'shuffle', 'sample', 'gen_bool', 'choose_multiple') and len(e.args) > 0:
                rs = [a for a in e.args if mentions(a, lambda x: x.op == 'param' and x.a[0] == len(b.params) - 1)]
                ctx.tri('rng', '%s::%s %s' % (o, m, last), True if rs else None, e, 'random choice without the generator passed in')
    b = ctx.body('CoverTreeBuilder', 'build')
    evs = ctx.events(b, BUILD)
    pr = [e for e in evs if e.kind == 'call' and e.name == 'BuilderNode::new']
    for e in pr:
        f = field_of(e.args[0], 'rng_seed')
        ctx.tri('seed', 'builder to parameters', None if f is None else selff(f, 'rng_seed'), e, 'the seed of the builder does not reach the tree')


def cell_seed(t):
    for seed, pi in ((0, 5), (12, 10), (255, 255)):
        def leaf(x):
            if isf(x, 'rng_seed'):
                return seed if x.op == 'payload' else ('Some', seed)
            if x.op == 'field' and x.a[1] == '1' and is_param(x.a[0], 1) or is_call(x, 'CoveredData::center_index') or isf(x, 'center_index'):
                return pi
            return None
        try:
            v = Model(leaf).val(t)
        except Unknown:
            return
        yield ('seed %d centre %d' % (seed, pi), v == seed ^ pi)


@prop('T09')
def rng_local(ctx):
    """no generator is shared between nodes"""
    for meth in ('split_nearest', 'split_first'):
        b = ctx.body('BuilderNode', meth)
        evs = ctx.events(b, NODES)
        for e in evs:
            if e.kind == 'call' and e.name in ('NearestCoveredData::split', 'UncoveredData::pick_center'):
                r = e.args[-1]
                sh = [x for x in subterms(r) if x.op in ('static', 'param') and not isf_rng(x, r)]
                sh = [x for x in sh if mentions_deep(r, lambda y: y.op == 'call' and y.a[0].split('::')[-1] in ('lock', 'write', 'borrow_mut', 'with'))]
                ctx.ob('rng-local', '%s %s' % (meth, e.name.split('::')[-1]), not sh, e, 'the generator is shared between nodes, so the tree depends on scheduling')


def isf_rng(x, r):
    return False


# ---- T10 -------------------------------------------------------------------------

@prop('T10')
def split_parallel(ctx):
    """every node sends exactly one message, and every child is scheduled"""
    b = ctx.body('BuilderNode', 'split_parallel')
    op = ('BuilderNode::split', 'CoveredData::center_index')
    evs = ctx.events(b, op)
    sp = lambda t: is_call(t, 'BuilderNode::split')
    sends = [e for e in evs if e.kind == 'call' and e.name.split('::')[-1] in ('send', 'try_send', 'send_timeout')]
    recs = [e for e in evs if e.kind == 'call' and e.name == 'BuilderNode::split_parallel']
    n = [e for e in evs if e.kind == 'call' and e.name == 'BuilderNode::split']
    ctx.ob('split', 'once', len(n) == 1 and strip_noise(n[0].guard) == TRUE and is_param(n[0].args[0], 0), n[0] if n else b.name, 'the node is not split exactly once')
    errs = lambda t: t.op == 'is' and mentions(t.a[0], lambda x: x.op == 'err' and sp(x.a[0]))
    kinds = sorted({a.a[1] for e in sends for a in atoms_of(e.guard) if errs(a)})
    if kinds:
        kinds = sorted({v[0] for vs in ctx.eng.src.enums.values() if set(kinds) <= {v[0] for v in vs} for v in vs}) or kinds
    for ok, kind in [(True, None)] + [(False, k) for k in kinds or [None]]:
        def leaf(t):
            if t.op == 'is' and sp(t.a[0]) and t.a[0].op == 'call':
                return (t.a[1] == 'Ok') == ok
            if errs(t):
                return t.a[1] == kind
            if t.op == 'try' and sp(t.a[0]):
                return (t.a[1] == 'ok') == ok
            if t.op == 'each' or t.op == 'is' and is_call(t.a[0], 'pop'):
                return True if t.op == 'each' else t.a[1] == 'Some'
            return None
        s = Sim(evs, leaf)
        try:
            f = s.fired(sends)
        except Unknown as u:
            ctx.undecided('split_parallel ' + short(u))
            continue
        ctx.ob('message', 'split %s' % ('succeeds' if ok else 'fails'), len(f) == 1 and not in_cycle(f[0]), sends[0] if sends else b.name, '%d messages are sent for a node whose split %s: the builder waits for exactly one' % (len(f), 'succeeds' if ok else 'fails'))
        for e in f:
            v = s.term(e.args[1])
            if ok:
                x = payload(v) if v.op == 'ok' else None
                good = x is not None and x.op == 'agg' and selff(tup(x, 0), 'scale_index') and is_call(tup(x, 1), 'CoveredData::center_index') and isf_self_cov(tup(x, 1)) and strip_mut(tup(x, 2)).op == 'field' and strip_mut(tup(x, 2)).a[1] == '0' and sp(strip_mut(tup(x, 2)).a[0])
                ctx.tri('message', 'content', good if x is not None and x.op == 'agg' else None, e, 'the node is not sent with its own scale and centre: ' + short(v))
            else:
                ctx.ob('message', 'error', v.op != 'ok', e, 'a failed split is reported as success')
        kids = [e for e in recs if s.guard(e.guard)]
        ctx.ob('schedule', 'split %s' % ('succeeds' if ok else 'fails'), bool(kids) == ok, recs[0] if recs else b.name, 'the children are not scheduled')
        if ok:
            for e in kids:
                a = strip(e.args[0])
                lst = lambda t: strip_mut(t).op == 'field' and strip_mut(t).a[1] == '1' and sp(strip_mut(t).a[0])
                good = is_elem(a, lst) or is_call(a, 'pop') and lst(a.a[1][0])
                ctx.tri('schedule', 'which', True if good else None, e, short(a))
                ctx.ob('schedule', 'all', in_cycle(e), e, 'only one child is scheduled')
                for x in seqs(e.guard):
                    ctx.ob('schedule', 'every child', not mentions(x, lambda y: y.op in ('taken', 'stepby', 'filtered')), e, 'some children are not scheduled: ' + short(x))
                    break
    for x, y, g in exits_of(ctx.frame(b, op), lambda e: e.kind == 'call' and e.name == 'BuilderNode::split_parallel'):
        k = Sim(evs, lambda t: t.a[1] in ('Some', 'Ok') if t.op == 'is' else True if t.op == 'each' else False if t.op == 'done' else None).guard(g)
        ctx.tri('schedule', 'exit', None if k is None else not k, b.name, 'scheduling can stop before the last child')


def isf_self_cov(t):
    t = strip_mut(t)
    return t.op == 'call' and selff(t.a[1][0], 'covered')


def seqs(g):
    return [a.a[0] for a in atoms_of(g) if a.op == 'each']


@prop('T10')
def completion(ctx):
    """the builder waits for exactly the outstanding nodes, inserts each and publishes everything"""
    b = ctx.body('CoverTreeBuilder', 'build')
    evs = ctx.events(b, BUILD)
    fr = ctx.frame(b, BUILD)
    got = lambda t: is_call(t, 'recv')
    new = [e for e in evs if e.kind == 'call' and e.name == 'BuilderNode::new']
    for e in new:
        f = field_of(e.args[0], 'total_nodes')
        ctx.tri('outstanding', 'initial', None if f is None or intval(f) is None else intval(f) == 1, e, 'the number of outstanding nodes starts at %s instead of 1' % short(f))
    sp = [e for e in evs if e.kind == 'call' and e.name == 'BuilderNode::split_parallel']
    ok = len(sp) == 1 and strip_noise(sp[0].guard) == TRUE and not in_cycle(sp[0]) and is_call(sp[0].args[0], 'BuilderNode::new')
    ctx.ob('root', 'scheduled once', ok, sp[0] if sp else b.name, 'the root is not scheduled exactly once')
    rc = [e for e in evs if e.kind == 'call' and e.name.split('::')[-1] in ('recv',)]
    ctx.ob('wait', 'receives', len(rc) == 1 and in_cycle(rc[0]), rc[0] if rc else b.name, 'nodes are not received in a loop')
    ins = [e for e in evs if e.kind == 'call' and e.name.endswith('MonoWriteHandle::insert') and isf(e.args[0], 'node_writer')]
    counters = {}
    for e in evs:
        if e.kind == 'set' and e.lval.op == 'var':
            counters.setdefault((e.lval.a[0], e.lval.a[1]), []).append(e)
    ex = [(x, y, g) for x, y, g in loop_exits(fr, lambda e: e.kind == 'call' and e.name.split('::')[-1] == 'recv')]
    ctr = set()
    for x, y, g in ex:
        for a in atoms_of(g):
            for t in subterms(a):
                if t.op == 'rec':
                    ctr.add((t.a[0], t.a[1]))
    load = lambda t: t.op == 'call' and t.a[0].split('::')[-1] == 'load'
    if len(ctr) != 1 or not ex:
        ctx.undecided('build: counter of inserted nodes')
    else:
        c = list(ctr)[0]
        isctr = lambda t: t.op == 'phi' and any(x.op == 'rec' and (x.a[0], x.a[1]) == c for x in subterms(t)) or t.op == 'rec' and (t.a[0], t.a[1]) == c
        for n, tot in ((0, 1), (1, 1), (1, 2), (2, 2), (5, 7), (3, 2)):
            if n > tot:
                continue
            any_, unk = n == tot, False
            for quiet in (True, False):
                def leaf(t):
                    if isctr(t):
                        return n
                    if load(t):
                        return tot
                    if t.op == 'is':
                        return t.a[1] in ('Ok', 'Some')
                    if t.op in ('empty', 'nonempty') and mentions(t.a[0], lambda x: x.op == 'call' and x.a[0].split('::')[-1] in ('unbounded', 'bounded', 'channel')):
                        return (t.op == 'empty') == quiet
                    if t.op == 'call' and t.a[0].split('::')[-1] == 'strong_count':
                        return 1 if quiet else 3
                    return None
                hit, u2 = False, False
                for x, y, g in ex:
                    if all(any(a.op == 'try' and a.a[1] == 'err' for a in cl) for cl in g):
                        continue
                    k = Model(leaf).guard(g)
                    u2 = u2 or k is None
                    hit = hit or bool(k)
                unk = unk or u2
                any_ = any_ and hit if n == tot else any_ or hit
            ctx.tri('wait', 'inserted %d of %d' % (n, tot), None if unk else any_ == (n == tot), b.name, 'the builder %s after %d of %d outstanding nodes' % ('stops' if any_ else 'keeps waiting', n, tot))
        for okr in (True, False):
            m = Model(lambda t: (t.a[1] == 'Ok') == okr if t.op == 'is' and got(t.a[0]) and t.a[0].op == 'call' else 2 if isctr(t) else t.a[1] in ('Ok', 'Some') if t.op == 'is' else None)
            inc, unk = 0, False
            for e in counters.get(c, []):
                if intval(e.val) is not None and not in_cycle(e):
                    ctx.ob('count', 'start', intval(e.val) == 0, e, 'the count of inserted nodes starts at %s' % intval(e.val))
                    continue
                k = m.guard(e.guard)
                if k is None:
                    unk = True
                elif k:
                    try:
                        inc += m.val(e.val) - 2
                    except Unknown:
                        unk = True
            n = [m.guard(e.guard) for e in ins]
            if None in n:
                unk = True
            ctx.tri('count', 'message %s' % ('received' if okr else 'missing'), None if unk else inc == (1 if okr else 0) and sum(map(bool, n)) == inc, b.name, '%d nodes inserted and %d counted for one message' % (sum(map(bool, n)), inc))
    for e in ins:
        v = strip_mut(e.args[2])
        ctx.tri('insert', 'node', True if v.op == 'field' and v.a[1] == '2' and got(v.a[0]) else None, e, 'the inserted node is ' + short(v))
    r = success(fr)
    fa = field_of(r[0], 'final_addresses') if len(r) == 1 else None
    ly = field_of(r[0], 'layers') if len(r) == 1 else None
    rf = [e for e in evs if e.kind == 'call' and e.name.endswith('MonoWriteHandle::refresh')]
    if fa is None or ly is None:
        ctx.undecided('build: result')
        return
    after = lambda e: event_after(e, ins)
    a = [e for e in rf if strip_mut(e.args[0]) is strip_mut(fa) and uncond(e) and after(e)]
    ctx.ob('publish', 'final addresses', bool(a), rf[0] if rf else b.name, 'the recorded addresses are not published when the tree is returned')
    l = [e for e in rf if isf(e.args[0], 'node_writer') and is_elem(strip(e.args[0]).a[0], lambda t: t is strip_mut(ly))]
    l2 = [e for e in l if not [q for q in seqs(e.guard) if mentions(q, lambda y: y.op in ('taken', 'stepby', 'filtered'))] and uncond(e) and after(e)]
    ctx.ob('publish', 'layers', bool(l2), l[0] if l else b.name, 'not every layer is published when the tree is returned')


def uncond(e):
    return all(all(loopish(a) for a in c) for c in e.guard)


@prop('T10')
def capacity(ctx):
    """no panic for a root below the minimum resolution"""
    b = ctx.body('CoverTreeBuilder', 'build')
    evs = ctx.events(b, BUILD)
    for e in evs:
        if e.kind == 'call' and e.name.split('::')[-1] in ('with_capacity', 'reserve') and len(e.chain) == 1:
            for root, m in ((-5, -5), (-50, -10), (3, -10), (-11, -10)):
                def leaf(t):
                    if t.op == 'field' and t.a[1] == 'scale_index' or t.op == 'field' and t.a[1] == '0' and is_call(t.a[0], 'address'):
                        return root
                    if isf(t, 'min_res_index'):
                        return m
                    return None
                try:
                    v = Model(leaf).val(e.args[-1])
                except Unknown:
                    ctx.undecided('build: capacity ' + short(e.args[-1]))
                    break
                ctx.ob('capacity', 'root %d minimum %d' % (root, m), 0 <= v < 2 ** 31, e, 'room for %d layers is requested: the build panics' % v)


@prop('T10')
def writer_refresh(ctx):
    """refreshing a tree publishes every layer"""
    b = ctx.body('CoverTreeWriter', 'refresh')
    evs = ctx.events(b, ('MonoWriteHandle::refresh',))
    l = [e for e in evs if e.kind == 'call' and e.name.endswith('MonoWriteHandle::refresh') and isf(e.args[0], 'node_writer') and is_elem(strip(e.args[0]).a[0], lambda t: selff(t, 'layers'))]
    ok = [e for e in l if uncond(e) and not [q for q in seqs(e.guard) if mentions(q, lambda y: y.op in ('taken', 'stepby', 'filtered'))]]
    ctx.ob('publish', 'refresh', bool(ok), l[0] if l else b.name, 'refresh does not publish every layer')


# ---- T11 -------------------------------------------------------------------------

FIELDS = ('scale_base', 'leaf_cutoff', 'min_res_index', 'use_singletons', 'verbosity', 'rng_seed')


@prop('T11')
def setters(ctx):
    """each setter changes its own parameter only"""
    for f in FIELDS:
        b = ctx.body('CoverTreeBuilder', 'set_' + f)
        evs = ctx.events(b)
        ws = [e for e in evs if e.kind == 'write' and path_of(e.lval)]
        ok = len(ws) == 1 and selff(ws[0].lval, f) and strip_noise(ws[0].guard) == TRUE and is_param(strip(ws[0].val) if f == 'rng_seed' else ws[0].val, 1)
        ctx.ob('setter', f, ok, ws[0] if ws else b.name, 'set_%s does not set exactly %s to its argument' % (f, f))
        if f == 'rng_seed' and ws:
            ctx.ob('setter', 'rng_seed is set', strip_mut(ws[0].val).op == 'some', ws[0], 'set_rng_seed does not set a seed')


def path_of(t):
    from rulelib import path as p
    q = p(t)
    return q and q[0] == '$0'


@prop('T11')
def defaults(ctx):
    """the documented defaults"""
    b = [x for x in (ctx.body('CoverTreeBuilder', 'new'), ctx.body('CoverTreeBuilder', 'default', 'Default'))]
    for x in b:
        r = strip_mut(ctx.frame(x).ret())
        if r.op != 'agg':
            ctx.undecided('defaults ' + short(r))
            continue
        d = dict(r.a[1])
        for f, w in (('scale_base', 2.0), ('leaf_cutoff', 1), ('min_res_index', -10), ('use_singletons', True)):
            try:
                v = Model(lambda t: None).val(d[f])
            except (Unknown, KeyError):
                v = None
            ctx.tri('default', '%s %s' % (x.owner[1] or 'new', f), None if v is None else v == w, x.name, 'the default of %s is %s' % (f, v))
        ctx.ob('default', '%s rng_seed' % (x.owner[1] or 'new'), strip_mut(d['rng_seed']).op == 'agg' and d['rng_seed'].a[0].endswith('None'), x.name, 'a seed is set by default')


@prop('T11')
def parameters(ctx):
    """a tree is built with exactly the parameters of its builder"""
    b = ctx.body('CoverTreeBuilder', 'build')
    evs = ctx.events(b, BUILD)
    new = [e for e in evs if e.kind == 'call' and e.name == 'BuilderNode::new']
    if len(new) != 1 or strip(new[0].args[0]).op != 'agg':
        ctx.undecided('build: parameters')
        return
    par_ = strip(new[0].args[0])
    for f in FIELDS + ('partition_type',):
        v = field_of(par_, f)
        ctx.ob('parameter', f, v is not None and selff(v, f), new[0], 'the tree gets %s for %s' % (short(v), f))
    v = field_of(par_, 'point_cloud')
    ctx.ob('parameter', 'point_cloud', v is not None and is_param(v, 1), new[0], 'the tree is built over another point cloud')
    ctx.ob('parameter', 'root partition', selff(new[0].args[1], 'partition_type') or new[0].args[1] is field_of(par_, 'partition_type'), new[0], 'the root is partitioned in another way')
    r = success(ctx.frame(b, BUILD))
    if len(r) == 1:
        p = field_of(r[0], 'parameters')
        ctx.tri('parameter', 'returned', True if p is not None and strip(p) is par_ else None, b.name, short(p))
        ra = field_of(r[0], 'root_address')
        ok = ra is not None and isf(tup(ra, 0), 'scale_index') and is_call(tup(ra, 0).a[0], 'BuilderNode::new') and mentions(tup(ra, 1), lambda x: is_call(x, 'BuilderNode::new'))
        ctx.tri('parameter', 'root address', True if ok else None, b.name, 'the root address is ' + short(ra))


KEYS = (('scale_base', 'as_f64', 2.0), ('leaf_cutoff', 'as_i64', 1), ('min_res_index', 'as_i64', -10), ('use_singletons', 'as_bool', True), ('verbosity', 'as_i64', 2), ('rng_seed', 'as_i64', None))


@prop('T11')
def yaml(ctx):
    """each parameter is read from its own key of the configuration"""
    b = ctx.body('CoverTreeBuilder', 'from_yaml')
    r = strip_mut(ctx.frame(b).ret())
    if r.op != 'agg':
        ctx.undecided('from_yaml ' + short(r))
        return
    d = dict(r.a[1])

    def key_of(t):
        t = strip(t)
        if t.op == 'call' and 'Yaml::as_' in t.a[0]:
            x = strip_mut(t.a[1][0])
            if x.op == 'index' and strip_mut(x.a[1]).op == 'const':
                return strip_mut(x.a[1]).a[0].strip('"')
        return None
    for f, conv, dflt in KEYS:
        v = d.get(f)
        if v is None:
            continue
        ks = {key_of(x) for x in subterms(v) if x.op == 'call' and 'Yaml::as_' in x.a[0]}
        if not ks or None in ks:
            ctx.undecided('from_yaml %s %s' % (f, short(v)))
            continue
        ctx.ob('yaml', f, ks == {f}, b.name, '%s is read from the key %s' % (f, sorted(ks)))
        given = (False, True) if conv == 'as_bool' else (7.5, 1.25) if conv == 'as_f64' else (7, 0, 5000) + ((-30,) if f == 'min_res_index' else ())
        for have in given + (None,):
            def leaf(t):
                if t.op == 'call' and 'Yaml::as_' in t.a[0]:
                    return ('Some', have) if have is not None else 'None'
                return None
            s = Sim([], leaf)
            try:
                x = s.val(v)
            except Unknown:
                ctx.undecided('from_yaml %s' % f)
                break
            if f == 'rng_seed':
                want = ('Some', have) if have is not None else None
            else:
                want = have if have is not None else dflt
            ctx.ob('yaml', '%s %s' % (f, 'given %s' % have if have is not None else 'missing'), x == want, b.name, '%s %s gives %s' % (f, 'given as %s' % have if have is not None else 'missing', x))
    pt = d.get('partition_type')
    ks = {key_of(x) for g, v in alts(pt) for a in atoms_of(g) for x in subterms(a) if x.op == 'call' and 'Yaml::as_' in x.a[0]}
    ctx.tri('yaml', 'partition_type', None if not ks or None in ks else ks == {'partition_type'}, b.name, 'the partition type is read from %s' % ks)
    for val, want in (('first', 'First'), ('nearest', 'Nearest'), (None, 'Nearest')):
        def leaf(t):
            if t.op == 'call' and 'Yaml::as_' in t.a[0]:
                return ('Some', val) if val is not None else 'None'
            if t.op == 'const' and t.a[0].startswith('"'):
                return t.a[0].strip('"')
            return None
        m = Model(leaf)
        hit = [v for g, v in alts(pt) if m.guard(g)]
        ctx.tri('yaml', 'partition_type %s' % val, None if len(hit) != 1 else hit[0].op == 'agg' and hit[0].a[0].endswith(want), b.name, 'partition_type %s gives %s' % (val, [short(x) for x in hit]))
