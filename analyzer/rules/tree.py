"""T02-T06: structure of the cover tree and the lookups in it."""
from itertools import product
from rules import prop
from rules.persist import field_of, same, eta, seqbase
from rulelib import *
import sem


def cond_each(model):
    """atoms of loops over filtered sequences hold when the filter condition does"""
    def go(a):
        if a.op != 'each':
            return None
        r = True
        t = a.a[0]
        while True:
            t = strip_mut(t)
            if t.op == 'filtered':
                c = t.a[1]
                if c.op == 'cond':
                    v = model.guard(c.a[0])
                else:
                    try:
                        v = model.val(c)
                    except Unknown:
                        v = None
                if v is None:
                    return 'None'
                r = r and v
                t = t.a[0]
            elif t.op in ('mapped', 'enumerate', 'rev'):
                t = t.a[0]
            else:
                return r
    return go


def cells(leaf):
    """a Model whose leaf also understands loops over filtered sequences"""
    box = []

    def lf(t):
        v = leaf(t)
        if v is None and t.op == 'each':
            return cond_each(box[0])(t)
        return v
    box.append(Model(lf))
    return box[0]


def fires(model, e):
    return model.guard(e.guard)


# ---- T02 ------------------------------------------------------------------------

def scales(r, m):
    return [m - 1] + list(range(m, r + 1))


def seq_ints(ctx, v, evs, leaf):
    """the integers described by a vector of CoverLayerWriter::new(x), in order; None if not understood"""
    def scale_of(t, i=None, rng=None):
        t = strip_mut(t)
        if t.op == 'call' and t.a[0].endswith('CoverLayerWriter::new'):
            t = t.a[1][0]
        elif t.op == 'agg':
            t = field_of(t, 'scale_index')
            if t is None:
                raise Unknown(v)

        def lf(x):
            if i is not None and x.op in ('rangeidx', 'idx', 'elem') and x.a[0] is rng:
                return i
            return leaf(x)
        return Model(lf).val(t)

    def ran(t):
        t = strip_mut(t)
        while t.op in ('enumerate',):
            t = t.a[0]
        if t.op == 'agg' and t.a[0].split('::')[-1] in ('Range', 'RangeInclusive'):
            d = dict(t.a[1])
            a, b = Model(leaf).val(d['start']), Model(leaf).val(d['end'])
            return t, range(a, b + (1 if t.a[0].endswith('Inclusive') else 0))
        if t.op == 'call' and t.a[0].endswith('RangeInclusive::new'):
            return t, range(Model(leaf).val(t.a[1][0]), Model(leaf).val(t.a[1][1]) + 1)
        raise Unknown(t)
    v = strip_mut(v)
    if v.op == 'chain':
        a, b = seq_ints(ctx, v.a[0], evs, leaf), seq_ints(ctx, v.a[1], evs, leaf)
        return None if a is None or b is None else a + b
    if v.op == 'agg' and v.a[0] == 'array':
        return [scale_of(x) for _, x in v.a[1]]
    if v.op == 'mapped':
        t, rg = ran(v.a[0])
        return [scale_of(v.a[1], i, t) for i in rg]
    if v.op == 'new':
        ps = [e for e in evs if e.kind == 'call' and e.args and strip_mut(e.args[0]) is v and e.name.split('::')[-1] in GROW + SHRINK]
        if any(e.name.split('::')[-1] not in ('push', 'extend') for e in ps):
            return None
        for i, e in enumerate(ps):
            for f in ps[i + 1:]:
                if not (event_may_precede(e, f) or event_may_precede(f, e)):
                    return None
        import functools
        ps.sort(key=functools.cmp_to_key(lambda e, f: -1 if event_may_precede(e, f) else 1))
        out = []
        for e in ps:
            ea = [a for a in must_atoms(e.guard) if a.op == 'each']
            if [a for c in e.guard for a in c if not loopish(a)] or len(ea) > 1:
                return None
            if e.name.endswith('extend'):
                x = seq_ints(ctx, e.args[1], evs, leaf)
                if x is None:
                    return None
                out += x
            elif ea:
                t, rg = ran(ea[0].a[0])
                out += [scale_of(e.args[1], i, t) for i in rg]
            else:
                out.append(scale_of(e.args[1]))
        return out
    return None


BUILD = TREE + ('BuilderNode::new', 'BuilderNode::split', 'BuilderNode::split_parallel', 'CoveredData::center_index', 'CoveredData::len', 'CoveredData::max_distance',
                'CoveredData::into_indexes', 'MonoWriteHandle::insert', 'MonoWriteHandle::update', 'MonoWriteHandle::refresh', 'monomap::new', 'CoverLayerWriter::new')


def success(fr):
    ret = fr.ret()
    return [payload(v) for g, v in alts(ret) if strip_mut(v).op == 'ok']


@prop('T02')
def scale_index(ctx):
    """every scale index selects the layer of that scale"""
    b = ctx.body('CoverTreeParameters', 'internal_index')
    r = ctx.frame(b).ret()
    for m, s in product((-9, -3, 0, 2), (-40, -10, -9, -8, -4, -3, -2, 0, 1, 2, 3, 9)):
        def leaf(t, m=m, s=s):
            if selff(t, 'min_res_index'):
                return m
            if is_param(t, 1):
                return s
            if t.op == 'narrow':
                return Model(leaf).val(t.a[0])
            return None
        want = 0 if s < m else s - m + 1
        try:
            v = Model(leaf).val(r)
        except Unknown as u:
            v = None
        ctx.tri('layer-of-scale', 'min_res=%d scale=%d' % (m, s), None if v is None else v == want, b.name, 'scale %d with minimum resolution %d selects layer %s instead of %d' % (s, m, v, want))
    b = ctx.body('CoverTreeBuilder', 'build')
    evs = ctx.events(b, BUILD)
    got = success(ctx.frame(b, BUILD))
    lay = field_of(got[0], 'layers') if got else None
    if lay is None:
        raise Missing('build: layers of the finished tree')
    ctx.ob('anchor', 'root', True)
    for m, root in product((-10, -2, 0, 1), (-12, -3, -2, -1, 0, 1, 4)):
        if root < m - 1:
            continue

        def leaf(t, m=m, root=root):
            if t.op == 'field' and t.a[1] == 'scale_index' and mentions(t.a[0], lambda x: is_call(x, 'BuilderNode::new')):
                return root
            if isf(t, 'min_res_index'):
                return m
            if t.op == 'narrow':
                return Model(leaf).val(t.a[0])
            if t.op == 'call' and t.a[0].split('::')[-1] in ('saturating_sub', 'wrapping_sub') and len(t.a[1]) == 2:
                return Model(leaf).val(t.a[1][0]) - Model(leaf).val(t.a[1][1])
            return None
        try:
            q = seq_ints(ctx, lay, evs, leaf)
        except Unknown as u:
            q = None
        if q is None:
            ctx.undecided('layers of build: ' + short(lay))
            break
        ctx.ob('layers-built', 'min_res=%d root=%d' % (m, root), q[:len(scales(root, m))] == scales(root, m), b.name, 'with root scale %d and minimum resolution %d the layers get the scales %s' % (root, m, q))


@prop('T02')
def accessors(ctx):
    """node lookups and updates go to the layer of the address's scale and the address's centre"""
    def layer_ok(t, sc):
        """t is self.layers[internal_index(self.parameters, sc)]"""
        t = strip_mut(t)
        if t.op != 'index' or not selff(t.a[0], 'layers'):
            return False
        ix = strip_mut(t.a[1])
        return is_call(ix, 'CoverTreeParameters::internal_index') and selff(ix.a[1][0], 'parameters') and sc(ix.a[1][1])

    def comp(i, k):
        return lambda t: strip_mut(t).op == 'field' and strip_mut(t).a[1] == str(k) and is_param(strip_mut(t).a[0], i)
    for meth, tr in (('get_node_and', None), ('get_node_children_and', None), ('get_node_plugin_and', None), ('get_node_label_summary', None), ('get_node_metasummary', None)):
        b = ctx.body('CoverTreeReader', meth)
        evs = ctx.events(b, TREE)
        g = [e for e in evs if e.kind == 'call' and e.name == 'MonoReadHandle::get_and']
        ok = len(g) == 1
        if ok:
            h = strip_mut(g[0].args[0])
            ok = h.op == 'field' and h.a[1] == 'node_reader' and layer_ok(h.a[0], comp(1, 0)) and comp(1, 1)(g[0].args[1])
        ctx.ob('lookup', meth, ok, g[0] if g else b.name, 'the node is not looked up under its centre in the layer of its scale: ' + short(g[0].args[:2] if g else ''))
    b = ctx.body('CoverTreeReader', 'get_node_children_and')
    evs = ctx.events(b, TREE)
    cl = [e for e in evs if e.kind == 'call' and e.name.split('::')[-1] in ('call_once', 'call', 'call_mut') and e.args and strip_mut(e.args[0]).op == 'param']
    ok = False
    for e in cl:
        a = strip_mut(e.args[1])
        if a.op == 'agg' and len(a.a[1]) == 2:
            ad, ch = strip_mut(a.a[1][0][1]), strip_mut(a.a[1][1][1])
            ok = ad.op == 'agg' and isf(ad.a[1][0][1], 'nested_scale') and comp(1, 1)(ad.a[1][1][1]) and isf(ch, 'addresses')
    ctx.ob('children', 'get_node_children_and', ok or not cl, cl[0] if cl else b.name, 'the callback does not get (nested scale, own centre) and the child addresses')
    for owner, meth, sc in (('CoverTreeReader', 'layer', par(1)), ('CoverTreeWriter', 'layer', par(1))):
        b = ctx.body(owner, meth)
        r = ctx.frame(b, TREE).ret()
        ctx.ob('lookup', owner + '::' + meth, layer_ok(r, sc), b.name, 'layer(scale) is not the layer of that scale: ' + short(r))
    W = TREE + ('MonoWriteHandle::insert', 'MonoWriteHandle::update')
    b = ctx.body('CoverTreeWriter', 'insert_raw')
    w = calls(ctx.events(b, W), 'MonoWriteHandle::insert')
    ok = len(w) == 1
    if ok:
        h = strip_mut(w[0].args[0])
        ok = h.op == 'field' and h.a[1] == 'node_writer' and layer_ok(h.a[0], par(1)) and is_param(w[0].args[1], 2) and is_param(w[0].args[2], 3)
    ctx.ob('insert', 'insert_raw', ok, w[0] if w else b.name, 'a node is not stored under its centre in the layer of its scale')
    b = ctx.body('CoverTreeWriter', 'update_node')
    w = calls(ctx.events(b, W), 'MonoWriteHandle::update')
    ok = len(w) == 1
    if ok:
        h = strip_mut(w[0].args[0])
        ok = h.op == 'field' and h.a[1] == 'node_writer' and layer_ok(h.a[0], comp(1, 0)) and comp(1, 1)(w[0].args[1])
    ctx.ob('update', 'update_node', ok, w[0] if w else b.name, 'an update does not reach the node it names')


@prop('T02')
def layer_accessors(ctx):
    """a layer answers for its own nodes"""
    MR = ('MonoReadHandle::get_and', 'MonoReadHandle::for_each', 'MonoReadHandle::map_into', 'MonoReadHandle::len', 'MonoReadHandle::is_empty', 'MonoReadHandle::factory', 'MonoReadHandleFactory::handle', 'MonoReadHandle::clone', 'MonoWriteHandle::insert', 'MonoWriteHandle::update')
    for meth, want in (('get_node_and', 'get_and'), ('get_node_plugin_and', 'get_and'), ('get_node_children_and', 'get_and'), ('for_each_node', 'for_each'), ('map_nodes', 'map_into'), ('node_center_indexes', 'map_into')):
        b = ctx.body('CoverLayerReader', meth)
        g = [e for e in ctx.events(b, MR) if e.kind == 'call' and e.name.startswith('MonoReadHandle::')]
        h = [e for e in g if e.name == 'MonoReadHandle::' + want and selff(e.args[0], 'node_reader')]
        if not h:
            ctx.tri('layer', meth, None, b.name, 'not understood')
            continue
        ok = len(g) == 1 and strip_noise(h[0].guard) == TRUE and (want != 'get_and' or is_param(h[0].args[1], 1))
        ctx.ob('layer', meth, ok, h[0], '%s does not look at its own node(s)' % meth)
    for meth in ('len', 'is_empty'):
        b = ctx.body('CoverLayerReader', meth)
        r = ctx.frame(b, MR).ret()
        for n in (0, 1, 5):
            def leaf(t):
                if len_of(t) is not None and selff(len_of(t), 'node_reader') or t.op == 'call' and t.a[0] == 'MonoReadHandle::len' and selff(t.a[1][0], 'node_reader'):
                    return n
                if t.op in ('empty', 'nonempty') and selff(t.a[0], 'node_reader'):
                    return (n == 0) == (t.op == 'empty')
                if t.op == 'call' and t.a[0].endswith('is_empty') and selff(t.a[1][0], 'node_reader'):
                    return n == 0
                return None
            try:
                v = Model(leaf).val(r)
            except Unknown:
                v = None
            ctx.tri('layer', '%s of %d nodes' % (meth, n), None if v is None else v == (n if meth == 'len' else n == 0), b.name, '%s is %s for a layer of %d nodes' % (meth, v, n))
    for owner, meth, tr in (('CoverLayerReader', 'clone', 'Clone'), ('CoverLayerReader', 'reader', None), ('CoverLayerWriter', 'reader', None), ('CoverLayerReader', 'scale_index', None), ('CoverLayerWriter', 'scale_index', None)):
        b = ctx.body(owner, meth, tr) if tr else ctx.body(owner, meth)
        r = ctx.frame(b, MR).ret()
        v = r if meth == 'scale_index' else field_of(r, 'scale_index')
        ctx.ob('layer', owner + '::' + meth, v is not None and selff(v, 'scale_index'), b.name, 'the scale of a layer is given as ' + short(v))
    b = ctx.body('CoverLayerWriter', 'new')
    v = field_of(ctx.frame(b, MR).ret(), 'scale_index')
    ctx.ob('layer', 'new', v is not None and is_param(v, 0), b.name, 'a new layer has the scale ' + short(v))
    for meth, nm in (('insert_raw', 'insert'), ('update_node', 'update')):
        b = ctx.body('CoverLayerWriter', meth)
        w = [e for e in ctx.events(b, MR) if e.kind == 'call' and e.name == 'MonoWriteHandle::' + nm]
        ctx.ob('layer', meth, len(w) == 1 and selff(w[0].args[0], 'node_writer') and is_param(w[0].args[1], 1) and is_param(w[0].args[2], 2) and strip_noise(w[0].guard) == TRUE, w[0] if w else b.name, '%s does not reach the node named' % meth)


@prop('T02')
def ranges(ctx):
    b = ctx.body('CoverTreeReader', 'layers')
    r = strip_mut(ctx.frame(b).ret())
    z = r.a[0] if r.op == 'rev' else None
    ctx.ob('layers', 'order', z is not None and z.op == 'zip' and any(selff(x, 'layers') for x in z.a[:2]), b.name, 'layers() does not walk the layers from the top: ' + short(r))
    b2 = ctx.body('CoverTreeReader', 'scale_range')
    rng = [(b, [x for x in z.a[:2] if not selff(x, 'layers')][0], -1) if z is not None and z.op == 'zip' else None,
           (b2, ctx.frame(b2).ret(), 0)]
    for x in rng:
        if x is None:
            continue
        bb, t, off = x
        t = strip_mut(t)
        if t.op != 'agg' or not t.a[0].endswith('Range'):
            ctx.undecided(bb.name + short(t))
            continue
        d = dict(t.a[1])
        for m, n in product((-10, 0, 3), (1, 2, 7)):
            def leaf(t, m=m, n=n):
                if isf(t, 'min_res_index'):
                    return m
                if len_of(t) is not None and isf(len_of(t), 'layers'):
                    return n
                if t.op == 'call' and t.a[0].endswith('CoverTreeReader::len'):
                    return n
                if t.op == 'narrow':
                    return Model(leaf).val(t.a[0])
                return None
            try:
                v = (Model(leaf).val(d['start']), Model(leaf).val(d['end']))
            except Unknown:
                v = None
            ctx.ob('scale-range', '%s min_res=%d layers=%d' % (short(bb.name).split('::')[-1], m, n), v == (m + off, m - 1 + n), bb.name, 'the scales are %s for %d layers from resolution %d' % (v, n, m))
    b = ctx.body('CoverTreeReader', 'scale')
    r = ctx.frame(b).ret()
    for base, i in product((2.0, 1.3), (-7, -1, 0, 1, 5)):
        try:
            v = Model(lambda t: base if isf(t, 'scale_base') else i if is_param(t, 1) else None).val(r)
        except Unknown:
            v = None
        ctx.tri('scale', 'base=%s index=%d' % (base, i), None if v is None else abs(v - base ** i) < 1e-9, b.name, 'the scale of index %d is %s for base %s' % (i, v, base))
    b = ctx.body('CoverTreeWriter', 'reader')
    evs, mp = ctx.nevents(b, ('MonoReadHandleFactory::handle', 'MonoReadHandle::new', 'MonoReadHandle::factory'))
    r = subst(ctx.frame(b, ('MonoReadHandleFactory::handle', 'MonoReadHandle::new', 'MonoReadHandle::factory')).ret(), mp)
    ls = field_of(r, 'layers')
    ok = ls is not None and seqbase(ls) is not None and selff(seqbase(ls), 'layers') and strip_mut(ls).op == 'mapped'
    if ok:
        e = strip_mut(ls).a[1]
        src = sem.elem(seqbase(ls))
        si, nr = field_of(e, 'scale_index'), field_of(e, 'node_reader')
        ok = si is not None and nr is not None and isf(si, 'scale_index') and mentions(si, lambda x: x is src) and mentions(nr, lambda x: x is src) and mentions(nr, lambda x: isf(x, 'node_writer'))
    ctx.ob('reader', 'layers', ok, b.name, 'a reader does not see the layers of the tree in order: ' + short(ls))
    ra = field_of(r, 'root_address')
    ctx.ob('reader', 'root', ra is not None and selff(ra, 'root_address'), b.name, 'a reader starts at another root')
    fa = field_of(r, 'final_addresses')
    ctx.ob('reader', 'final_addresses', fa is not None and mentions(fa, lambda x: selff(x, 'final_addresses')), b.name, 'a reader has another point lookup')
    b = ctx.body('CoverTreeReader', 'clone', 'Clone')
    r = ctx.frame(b, ('MonoReadHandle::new', 'MonoReadHandle::clone', 'CoverLayerReader::clone')).ret()
    for f in ('parameters', 'layers', 'root_address', 'final_addresses'):
        v = field_of(r, f)
        ctx.ob('clone', f, v is not None and (selff(v, f) or mentions(v, lambda x: selff(x, f))) and not mentions(v, lambda x: x.op in ('rev', 'taken', 'filtered')), b.name, 'a cloned reader differs in %s: %s' % (f, short(v)))


# ---- T03 ---------------------------------------------------------------------------

@prop('T03')
def counting(ctx):
    """coverage counts follow every insertion"""
    b = ctx.body('CoverNode', 'new')
    r = ctx.frame(b).ret()
    c = field_of(r, 'coverage_count')
    ctx.ob('count', 'new', c is not None and intval(c) == 1, b.name, 'a fresh node covers %s points instead of its centre' % short(c))
    for f, want in (('parent_address', 0), ('address', 1)):
        v = field_of(r, f)
        ctx.ob('fresh', f, v is not None and is_param(v, want), b.name, 'a fresh node has another %s' % f)
    for f in ('children', 'singles_indexes'):
        v = field_of(r, f)
        ctx.ob('fresh', f, v is not None and (strip_mut(v).op == 'new' or strip_mut(v).op == 'agg' and strip_mut(v).a[0].endswith('None')), b.name, 'a fresh node is not empty')

    def delta(meth, want, given, what):
        b = ctx.body('CoverNode', meth)
        evs = ctx.events(b)
        me = None
        for m_ in given:
            kids, vals = m_
            d, unk = 0, False
            ws = [e for e in evs if e.kind == 'write' and selff(e.lval, 'coverage_count')]

            def leaf(t):
                if selff(t, 'coverage_count'):
                    return 100
                if selff(t, 'children'):
                    return ('Some', ('kids',)) if kids else 'None'
                for i, v in vals.items():
                    if is_param(t, i):
                        return v
                    if len_of(t) is not None and is_param(len_of(t), i):
                        return v
                return None
            m = Model(leaf)
            tot = 0
            for e in ws:
                f = m.guard(e.guard)
                if f is False:
                    continue
                ea = [a for a in must_atoms(e.guard) if a.op == 'each']
                try:
                    occ = sum(1 for x in occurrences(e.val) if len_of(x) is not None and selff(len_of(x), 'singles_indexes'))
                    n = vals.get(1, 1)
                    cand = set()
                    for pick in product((4, 4 + n), repeat=min(occ, 3)):
                        it = iter(pick)

                        def both(t, it=it):
                            if len_of(t) is not None and selff(len_of(t), 'singles_indexes'):
                                return next(it)
                            return leaf(t)
                        cand.add(Model(both).val(e.val) - 100)
                    mult = 1
                    for a in ea:
                        if not (is_param(seqbase(a.a[0]), 1) and 1 in vals):
                            raise Unknown(a)
                        mult *= vals[1]
                    if len(cand) > 1 and want(vals) in {tot + c * mult for c in cand}:
                        raise Unknown(e.val)
                    tot += min(cand) * mult
                except (Unknown, StopIteration):
                    unk = True
                if f is None:
                    unk = True
            w = want(vals)
            ctx.tri('count', '%s %s' % (meth, sorted(vals.items())), None if unk else tot == w, ws[0] if ws else b.name, '%s: the coverage grows by %s instead of %s' % (what, 'an unknown amount' if unk else tot, w))
        return b, evs
    b, evs = delta('insert_singletons', lambda v: v[1], [(False, {1: n}) for n in (0, 1, 3)], 'adding singletons')
    g = [e for e in evs if e.kind == 'call' and e.name.split('::')[-1] in ('extend', 'extend_from_slice', 'append', 'push', 'insert_many') and selff(e.args[0], 'singles_indexes')]
    ok = len(g) == 1 and (is_param(g[0].args[-1], 1) or is_elem(g[0].args[-1], par(1))) and all(loopish(a) for c in g[0].guard for a in c)
    touched = lambda f: any(e.kind == 'call' and e not in g and e.args and strip_mut(e.args[0]).op == 'field' and isf(e.args[0], *f) and e.name.split('::')[-1] not in ('len', 'iter', 'is_empty', 'is_some', 'is_none', 'as_ref', 'as_mut', 'deref') for e in evs)
    ctx.tri('stored', 'insert_singletons', ok or (None if touched(('singles_indexes',)) or g and not is_loop_guard(g[0].guard) and strip_noise(g[0].guard) == TRUE and mentions(g[0].args[-1], par(1)) else False), g[0] if g else b.name, 'not all singletons are stored in the node')
    b, evs = delta('insert_singleton', lambda v: 1, [(False, {})], 'adding a singleton')
    g = [e for e in evs if e.kind == 'call' and e.name.split('::')[-1] == 'push' and selff(e.args[0], 'singles_indexes')]
    ctx.tri('stored', 'insert_singleton', len(g) == 1 and is_param(g[0].args[1], 1) and strip_noise(g[0].guard) == TRUE or (None if touched(('singles_indexes',)) else False), g[0] if g else b.name, 'the singleton is not stored in the node')
    b, evs = delta('insert_child', lambda v: v[2], [(True, {2: n}) for n in (1, 2, 5)], 'adding a child')
    g = [e for e in evs if e.kind == 'call' and e.name.split('::')[-1] == 'push' and isf(e.args[0], 'children', 'addresses')]
    ok = len(g) == 1 and is_param(g[0].args[1], 1)
    if ok:
        m = Model(lambda t: ('Some', ('kids',)) if selff(t, 'children') else None)
        ok = m.guard(g[0].guard) is True
    ctx.tri('stored', 'insert_child', ok or (None if touched(('children', 'addresses')) else False), g[0] if g else b.name, 'the child address is not stored in the node')
    b, evs = delta('insert_nested_child', lambda v: v[2] - 1, [(False, {2: n}) for n in (1, 2, 5)], 'nesting')
    w = [e for e in evs if e.kind == 'write' and selff(e.lval, 'children')]
    ok = len(w) == 1 and strip_mut(w[0].val).op == 'some'
    if ok:
        k = payload(w[0].val)
        ns, ad = field_of(k, 'nested_scale'), field_of(k, 'addresses')
        ok = ns is not None and is_param(ns, 1) and ad is not None and strip_mut(ad).op == 'new'
        m = Model(lambda t: 'None' if selff(t, 'children') else 3 if is_param(t, 2) else None)
        ok = ok and m.guard(w[0].guard) is True
    ctx.ob('stored', 'insert_nested_child', ok, w[0] if w else b.name, 'the nested child is not recorded with its scale')
    b = ctx.body('CoverNode', 'clone', 'Clone')
    r = ctx.frame(b).ret()
    for f in ('parent_address', 'address', 'radius', 'coverage_count', 'children', 'singles_indexes'):
        v = field_of(r, f)
        ctx.ob('clone', f, v is not None and (selff(v, f) or (strip_mut(v).op == 'call' and strip_mut(v).a[0].endswith('clone') and selff(strip_mut(v).a[1][0], f))), b.name, 'the published copy of a node differs in %s: %s' % (f, short(v)))
    b = ctx.body('CoverNode', 'children_len')
    r = ctx.frame(b).ret()
    for kids, n in ((False, 0), (True, 0), (True, 4)):
        m = Model(lambda t: (('Some', ('kids',)) if kids else 'None') if selff(t, 'children') else n if len_of(t) is not None and isf(len_of(t), 'addresses') else None)
        try:
            v = m.val(r)
        except Unknown:
            v = None
        ctx.tri('children-len', 'kids=%s n=%d' % (kids, n), None if v is None else v == (n + 1 if kids else 0), b.name, 'the number of children is %s for %d listed ones and a nested one' % (v, n))
    for meth, f in (('singletons_len', 'singles_indexes'),):
        b = ctx.body('CoverNode', meth)
        r = ctx.frame(b).ret()
        ctx.ob('accessor', meth, len_of(r) is not None and selff(len_of(r), f), b.name, 'the number of singletons is ' + short(r))
    for meth, f in (('coverage_count', 'coverage_count'), ('singletons', 'singles_indexes'), ('radius', 'radius'), ('address', 'address'), ('parent_address', 'parent_address')):
        b = ctx.body('CoverNode', meth)
        r = ctx.frame(b).ret()
        ctx.ob('accessor', meth, selff(r, f), b.name, '%s() returns %s' % (meth, short(r)))
    b = ctx.body('CoverNode', 'set_radius')
    w = writes(ctx.events(b), 'radius')
    ctx.ob('radius', 'set_radius', len(w) == 1 and is_param(w[0].val, 1) and strip_noise(w[0].guard) == TRUE, w[0] if w else b.name, 'set_radius does not store the radius it is given')
    b = ctx.body('CoverNode', 'remove_children')
    w = [e for e in ctx.events(b) if e.kind == 'write' and any(mentions(e.lval, lambda x, f=f: selff(x, f)) for f in ('coverage_count', 'singles_indexes', 'radius', 'address', 'parent_address'))]
    ctx.ob('detach', 'remove_children', not w, w[0] if w else b.name, 'detaching the children also changes ' + short(w[0].lval if w else ''))
