"""T01: a saved tree loads back as the same tree."""
from rules import prop
from rulelib import *
import sem

PROTO = ('MonoWriteHandle::insert', 'MonoWriteHandle::refresh', 'MonoReadHandle::for_each', 'MonoWriteHandle::for_each', 'MonoWriteHandle::map_into', 'monomap::new',
         'CoverNode::save', 'CoverNode::load', 'CoverLayerWriter::save', 'CoverLayerWriter::load', 'CoverTreeWriter::refresh_final_indexes')


def without(*names):
    return tuple(x for x in PROTO if x not in names)


def msg_new(t):
    t = strip_mut(t)
    return t.op == 'call' and (t.a[0].endswith('Proto::new') or t.a[0].endswith('Default::default'))


def slot(t):
    """f if t denotes field f of a freshly made message: new().f, mut_f(new()), take_f(new())"""
    t = strip_mut(t)
    if t.op == 'field' and msg_new(t.a[0]):
        return t.a[1]
    if t.op == 'call' and len(t.a[1]) == 1 and msg_new(t.a[1][0]):
        m = t.a[0].split('::')[-1]
        for p in ('mut_', 'take_'):
            if m.startswith(p):
                return m[len(p):]
    return None


def stored(evs):
    """[(field, value, event)] of everything save puts in the message"""
    out = []
    for e in evs:
        if e.kind == 'call' and 'Proto::set_' in e.name and e.args and msg_new(e.args[0]):
            v = e.args[1]
            if slot(v) == e.name.split('::set_')[-1]:
                continue
            out.append((e.name.split('::set_')[-1], v, e))
        elif e.kind == 'write' and slot(e.lval):
            if slot(e.val) != slot(e.lval):
                out.append((slot(e.lval), e.val, e))
        elif e.kind == 'call' and e.args and slot(e.args[0]) and e.name.split('::')[-1] in ('push', 'extend', 'insert'):
            m = e.name.split('::')[-1]
            if m == 'extend':
                out.append((slot(e.args[0]), e.args[1], e))
            elif m == 'push':
                each = [a for a in must_atoms(e.guard) if a.op == 'each']
                src = each[0].a[0] if len(each) == 1 else mk('unknown')
                out.append((slot(e.args[0]), mk('mapped', src, strip_mut(e.args[1])), e))
    return out


def read_of(t, pi=0):
    """f if t reads field f of the message parameter"""
    t = strip_mut(t)
    if t.op == 'field' and is_param(t.a[0], pi):
        return t.a[1]
    if t.op == 'call' and len(t.a[1]) == 1 and is_param(t.a[1][0], pi) and 'Proto::get_' in t.a[0]:
        return t.a[0].split('::get_')[-1]
    return None


def plug(t, env, pi=0):
    m = {}
    for x in subterms(t):
        f = read_of(x, pi)
        if f is not None and f in env:
            m[x] = strip_mut(env[f])
    return subst(t, m)


def resolve(t, model, memo=None):
    """pick the branch of every phi that the model selects"""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in memo:
            return memo[x]
        memo[x] = x
        if x.op == 'phi':
            r = x
            for g, v in x.a[0]:
                k = model.guard(g)
                if k is True:
                    r = go(v)
                    break
                if k is None:
                    break
        elif x.op == 'optmap':
            try:
                v = model.val(x.a[0])
                r = mk('agg', 'Option::None', ()) if v is None else mk('some', go(x.a[1]))
            except Unknown:
                r = x
        else:
            a = tuple(go(y) for y in x.a)
            r = x if a == x.a else rebuild(x.op, a)
        memo[x] = r
        return r
    return go(strip_mut(t))


def eta(t):
    t = strip_mut(t)
    if t.op == 'agg' and t.a[0] == 'tuple' and t.a[1]:
        b = None
        for i, (n, v) in enumerate(t.a[1]):
            v = strip_mut(v)
            if v.op != 'field' or v.a[1] != str(i) or (b is not None and v.a[0] is not b):
                return t
            b = v.a[0]
        return b
    return t


def seqbase(t):
    t = strip_mut(t)
    if t.op in ('mapped', 'enumerate'):
        return seqbase(t.a[0])
    if t.op == 'zip':
        a, b = seqbase(t.a[0]), seqbase(t.a[1])
        return a if a is b else None
    return t


def same_seq(t, s):
    """t is the sequence s, element for element"""
    t = strip_mut(t)
    if t is s:
        return True
    return seqbase(t) is s and eta(sem.elem(t)) is sem.elem(s)


def same(t, s):
    return strip_mut(t) is s or eta(t) is s


def field_of(t, n):
    t = strip(t)
    if t.op == 'agg':
        for k, v in t.a[1]:
            if k == n:
                return v
    return None


I32MIN, U64MAX = -2 ** 31, 2 ** 64 - 1
SELF = mk('param', 0, 'self')


def self_param(evs):
    for e in evs:
        for t in list(getattr(e, 'args', ()) or ()) + [e.val if e.kind == 'write' else None]:
            if t is not None:
                for x in subterms(t):
                    if x.op == 'param' and x.a[0] == 0:
                        return x
    raise Missing('save does not use self')


def consts(t):
    if t.op == 'const':
        k = t.a[0]
        if k.endswith('i32::MIN') or k == '-2147483648_i32':
            return I32MIN
        if k.endswith('i32::MAX'):
            return 2 ** 31 - 1
        if k.endswith('u64::MAX') or k.endswith('usize::MAX') or k == '18446744073709551615_u64':
            return U64MAX
        if k.startswith('"'):
            return k
    return None


def env_of(ctx, stores, model, what, fields):
    env, where = {}, {}
    for f in fields:
        hit = [(v, e) for g, v, e in stores if g == f and model.guard(strip_noise_each(e.guard)) is not False]
        vs = []
        for v, e in hit:
            if v not in vs:
                vs.append(v)
        if not hit:
            # unset fields of a message read back as their default
            env[f] = sem.const('false' if f in ('is_leaf', 'use_singletons') else '0_u64')
            continue
        ok = len(vs) == 1 and all(model.guard(strip_noise_each(e.guard)) is True for v, e in hit)
        ctx.ob('stored', '%s %s' % (what, f), ok, hit[0][1] if hit else '', 'the field is written with several values or only sometimes: ' + short([v for v, _ in hit]))
        if vs:
            env[f], where[f] = vs[-1], hit[-1][1]
    return env, where


def strip_noise_each(g):
    return frozenset(frozenset(a for a in c if not loopish(a)) for c in g)


@prop('T01')
def node_round_trip(ctx):
    """loading what save wrote gives the same node, layer and tree (symbolic composition of save and load)"""
    bs, bl = ctx.body('CoverNode', 'save'), ctx.body('CoverNode', 'load')
    opq = without('CoverNode::save', 'CoverNode::load')
    evs, _ = ctx.nevents(bs, opq)
    stores = stored(evs)
    me = self_param(evs)
    par_, chi = sem.field(me, 'parent_address'), sem.field(me, 'children')
    levs, lm = ctx.nevents(bl, opq)
    ret = subst(ctx.frame(bl, opq).ret(), lm)
    cut = [e for e in list(evs) + list(levs) if e.kind == 'call' and e.name.split('::')[-1] in ('retain', 'dedup', 'dedup_by', 'dedup_by_key', 'truncate', 'swap_remove') and e.name.split('::')[0] in ('Vec', 'VecDeque', 'SmallVec')]
    ctx.ob('round-trip', 'node lists whole', not cut, cut[0] if cut else bs.name, 'part of a list of the node is not saved or loaded')
    for parent in (None, (5, 7), (0, 0), (0, 7), (-1, 0), (5, 0), (-1, 3), (-9, 12)):
        for kids in (None, 'kids'):
            cell = 'parent=%s %s' % (parent, 'leaf' if kids is None else 'routing')

            def leaf(t):
                c = consts(t)
                if c is not None:
                    return c
                if t is par_:
                    return 'None' if parent is None else ('Some', parent)
                if t is chi:
                    return 'None' if kids is None else ('Some', ('kids',))
                if parent is not None and t.op == 'field' and t.a[0] is payload(par_):
                    return parent[int(t.a[1])]
                return None
            model = Model(leaf)
            need = ['coverage_count', 'scale_index', 'center_index', 'radius', 'outlier_point_indexes', 'is_leaf', 'parent_scale_index', 'parent_center_index']
            if kids:
                need += ['nested_scale_index', 'children_scale_indexes', 'children_point_indexes']
            env, where = env_of(ctx, stores, model, 'node ' + cell, need)
            got = resolve(plug(ret, env), model)
            w = bl.name

            def rt(f, ok, v):
                ctx.ob('round-trip', 'node.%s %s' % (f, cell), ok, where.get(f, w), 'a saved node does not load back with the same %s: it becomes %s' % (f, short(v)))
            for f in ('coverage_count', 'radius', 'address'):
                v = field_of(got, f)
                rt(f, v is not None and same(v, sem.field(me, f)), v)
            v = field_of(got, 'singles_indexes')
            rt('singles_indexes', v is not None and same_seq(v, sem.field(me, 'singles_indexes')), v)
            v = field_of(got, 'parent_address')
            if parent is None:
                rt('parent_address', v is not None and (same(v, par_) or strip_mut(v).op == 'agg' and strip_mut(v).a[0].endswith('None')), v)
            else:
                rt('parent_address', v is not None and (same(v, par_) or strip_mut(v).op == 'some' and same(payload(v), payload(par_))), v)
            v = field_of(got, 'children')
            if kids is None:
                rt('children', v is not None and (same(v, chi) or strip_mut(v).op == 'agg' and strip_mut(v).a[0].endswith('None')), v)
            else:
                ok = v is not None and strip_mut(v).op == 'some'
                if ok:
                    k = payload(v)
                    a, n = field_of(k, 'addresses'), field_of(k, 'nested_scale')
                    ok = a is not None and n is not None and same_seq(a, sem.field(payload(chi), 'addresses')) and same(n, sem.field(payload(chi), 'nested_scale'))
                rt('children', ok, v)


@prop('T01')
def layer_round_trip(ctx):
    bs, bl = ctx.body('CoverLayerWriter', 'save'), ctx.body('CoverLayerWriter', 'load')
    opq = without('CoverLayerWriter::save', 'CoverLayerWriter::load')
    evs, _ = ctx.nevents(bs, opq)
    stores = stored(evs)
    me = self_param(evs)
    model = Model(consts)
    env, where = env_of(ctx, stores, model, 'layer', ['nodes', 'scale_index'])
    ns = env.get('nodes')
    ok = False
    if ns is not None and ns.op == 'mapped':
        src = strip_mut(ns.a[0])
        v = strip_mut(ns.a[1])
        ok = src.op == 'call' and src.a[0].endswith('::for_each') and mentions(src, lambda x: isf(x, 'node_writer')) and \
            v.op == 'call' and v.a[0].endswith('CoverNode::save') and same(v.a[1][0], tup(sem.elem(src), 1))
    ctx.ob('round-trip', 'layer.nodes saved', ok, where.get('nodes', bs.name), 'not every node of the layer is written exactly once: ' + short(ns))
    for g, v, e in stores:
        if g == 'nodes':
            ctx.ob('every-node', 'layer.nodes', all(loopish(a) for c in e.guard for a in c), e, 'a node is written only under a condition: ' + short(e.guard))
    levs = ctx.events(bl, opq)
    ret = ctx.frame(bl, opq).ret()
    sc = field_of(ret, 'scale_index')
    ctx.ob('round-trip', 'layer.scale_index', sc is not None and same(plug(sc, env), sem.field(me, 'scale_index')), bl.name, 'a loaded layer has scale index ' + short(sc))
    w = field_of(ret, 'node_writer')
    ins = calls(levs, 'MonoWriteHandle::insert')
    good = []
    for e in ins:
        at = guard_must(e)
        each = [a for a in at if a.op == 'each']
        ok = len(each) == 1 and read_of(each[0].a[0]) == 'nodes' and not [a for c in e.guard for a in c if not loopish(a)]
        if ok:
            x = sem.elem(each[0].a[0])
            k, v = strip_mut(e.args[1]), strip_mut(e.args[2])
            kf = k.a[0].split('get_')[-1] if k.op == 'call' and 'Proto::get_' in k.a[0] and k.a[1][0] is x else (k.a[1] if k.op == 'field' and k.a[0] is x else None)
            # the key is the centre of the node: read from the message or from the loaded node
            ok = kf == 'center_index' or (mentions(k, lambda y: is_call(y, 'CoverNode::load')) and isf(k, 'address', '1'))
            ok = ok and is_call(v, 'CoverNode::load') and v.a[1][0] is x and e.args[0] is w
        good.append(ok)
    ctx.ob('round-trip', 'layer.nodes loaded', len(ins) == 1 and all(good), ins[0] if ins else bl.name, 'not every stored node is inserted once under its centre: ' + short([e.args[1:] for e in ins]))
    refr = [e for e in calls(levs, 'MonoWriteHandle::refresh') if e.args[0] is w and not guard_must(e)]
    pub = bool(refr) and all(any(not event_may_precede(r, i) and all(not loopish(a) for c in r.guard for a in c) for r in refr) for i in ins)
    ctx.ob('published', 'layer load', pub, bl.name, 'the loaded nodes are not published to readers before the layer is handed out')


TREE_FIELDS = [('use_singletons', 'use_singletons'), ('scale_base', 'scale_base'), ('leaf_cutoff', 'cutoff'), ('min_res_index', 'resolution'), ('partition_type', 'partition_type')]


@prop('T01')
def tree_round_trip(ctx):
    bs, bl = ctx.body('CoverTreeWriter', 'save'), ctx.body('CoverTreeWriter', 'load')
    evs, _ = ctx.nevents(bs, PROTO)
    stores = stored(evs)
    me = self_param(evs)
    levs, lm = ctx.nevents(bl, PROTO)
    ret = subst(ctx.frame(bl, PROTO).ret(), lm)
    oks = [v for g, v in alts(ret) if strip_mut(v).op == 'ok']
    ctx.ob('load-succeeds', 'tree', len(oks) == 1, bl.name, 'load has no single successful result: ' + short(ret))
    if not oks:
        return
    pt = sem.field(sem.field(me, 'parameters'), 'partition_type')
    for part in ('First', 'Nearest'):
        def leaf(t):
            c = consts(t)
            if c is not None:
                return c
            if t.op == 'is' and t.a[0] is pt:
                return t.a[1] == part
            return None
        model = Model(leaf)
        env, where = env_of(ctx, stores, model, 'tree ' + part, ['scale_base', 'cutoff', 'resolution', 'use_singletons', 'partition_type', 'root_scale', 'root_index', 'layers'])
        got = resolve(plug(payload(oks[0]), env), model)
        prm = field_of(got, 'parameters')
        for f, pf in TREE_FIELDS:
            v = field_of(prm, f) if prm is not None else None
            want = sem.field(sem.field(me, 'parameters'), f)
            if f == 'partition_type':
                ok = v is not None and (same(v, want) or strip_mut(v).op == 'agg' and strip_mut(v).a[0].endswith('::' + part))
            else:
                ok = v is not None and same(v, want)
            ctx.ob('round-trip', 'tree.%s %s' % (f, part), ok, where.get(pf, bl.name), 'a saved tree does not load back with the same %s: %s' % (f, short(v)))
        v = field_of(got, 'root_address')
        ctx.ob('round-trip', 'tree.root_address ' + part, v is not None and same(v, sem.field(me, 'root_address')), where.get('root_scale', bl.name), 'the root becomes ' + short(v))
        ls = field_of(got, 'layers')
        lays = sem.field(me, 'layers')
        ok = False
        if ls is not None and strip_mut(ls).op == 'mapped' and seqbase(ls) is lays:
            x = strip_mut(strip_mut(ls).a[1])
            ok = is_call(x, 'CoverLayerWriter::load') and is_call(x.a[1][0], 'CoverLayerWriter::save') and strip_mut(x.a[1][0]).a[1][0] is sem.elem(lays)
        ctx.ob('round-trip', 'tree.layers ' + part, ok, where.get('layers', bl.name), 'the layers are not stored and loaded one by one in order: ' + short(ls))
        pc = field_of(prm, 'point_cloud') if prm is not None else None
        ctx.ob('round-trip', 'tree.point_cloud ' + part, pc is not None and is_param(pc, 1), bl.name, 'the loaded tree does not use the point cloud given')
    rf = calls(levs, 'CoverTreeWriter::refresh_final_indexes')
    ctx.ob('lookup-rebuilt', 'load', any(strip_noise(e.guard) == TRUE for e in rf), rf[0] if rf else bl.name, 'the point lookup is not rebuilt after loading')


@prop('T01')
def files(ctx):
    opq = ('CoverTreeWriter::load', 'CoverTreeWriter::save')
    b = ctx.free('save_tree')
    evs = ctx.events(b, opq)
    opens = calls(evs, 'OpenOptions::open', 'File::create')
    ctx.ob('file', 'save opens path', len(opens) == 1 and mentions(opens[0].args[-1], lambda x: is_param(x, 0)), opens[0] if opens else b.name, 'the tree is not written to the path given')
    if opens:
        o = opens[0]
        trunc = o.name.endswith('File::create') or mentions(o.args[0], lambda x: x.op == 'call' and x.a[0].endswith('OpenOptions::truncate') and const_is(x.a[1][1], 'true')) \
            or mentions(o.args[0], lambda x: x.op == 'call' and x.a[0].endswith('OpenOptions::create_new') and const_is(x.a[1][1], 'true'))
        if not trunc:
            # the path that finds an existing file removes it first
            def step(s, e):
                if e.kind == 'call' and e.name.endswith('remove_file') and mentions(e.args[0], lambda x: is_param(x, 0)):
                    return 'gone'
                if e is not None and e.kind == 'call' and e.name == o.name:
                    return s if s == 'gone' else 'kept'
                return s
            rm = [e for e in calls(evs, 'fs::remove_file', 'remove_file') if mentions(e.args[0], lambda x: is_param(x, 0))]
            ok = False
            for e in rm:
                ex = [a for a in guard_must(e) if a.op == 'bool' and a.a[1] is True and is_call(a.a[0], 'Path::exists')]
                rest = [a for a in guard_must(e) if a not in ex and not (a.op == 'is' and is_call(a.a[0], 'Path::to_str'))]
                ok = ok or (not rest and event_may_precede(e, o))
            trunc = ok
        ctx.ob('file', 'save replaces', trunc, o, 'bytes of an older, longer file survive behind the new tree')
    wr = [e for e in evs if e.kind == 'call' and e.name.split('::')[-1] in ('write_to', 'write_to_writer', 'write_length_delimited_to', 'write_to_with_cached_sizes')]
    ctx.ob('file', 'save writes message', len(wr) == 1 and is_call(wr[0].args[0], 'CoverTreeWriter::save') and is_param(strip(wr[0].args[0]).a[1][0], 1) and wr[0].name.endswith(('write_to', 'write_to_writer')),
           wr[0] if wr else b.name, 'what is written is not the saved form of the tree given')
    if wr and wr[0].name.endswith('write_to'):
        fl = [e for e in evs if e.kind == 'call' and e.name.endswith('::flush')]
        ctx.ob('file', 'save flushes', any(event_before(wr[0], f) and not guard_must(f) - guard_must(wr[0]) for f in fl), wr[0], 'the output stream is not flushed after the message')
    b = ctx.free('load_tree')
    evs = ctx.events(b, opq)
    op = calls(evs, 'File::open', 'OpenOptions::open')
    ctx.ob('file', 'load opens path', len(op) == 1 and mentions(op[0].args[-1], lambda x: is_param(x, 0)), op[0] if op else b.name, 'the tree is not read from the path given')
    mg = [e for e in evs if e.kind == 'call' and e.name.split('::')[-1] in ('merge_from', 'merge_from_reader', 'parse_from_reader', 'parse_from_bytes', 'merge_from_bytes')]
    ld = calls(evs, 'CoverTreeWriter::load')
    ok = len(mg) == 1 and len(ld) == 1 and is_param(ld[0].args[1], 1)
    if ok:
        m, l = mg[0], ld[0]
        msg = strip(l.args[0])
        ok = (strip(m.args[0]) is msg) if m.name.split('::')[-1].startswith('merge') else mentions(l.args[0], lambda x: x.op == 'call' and x.a[0].split('::')[-1] == m.name.split('::')[-1])
        ok = ok and event_before(m, l)
    ctx.ob('file', 'load decodes and builds', ok, ld[0] if ld else b.name, 'the tree is not built from the decoded message and the cloud given')
