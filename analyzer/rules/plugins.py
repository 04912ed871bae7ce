"""P01-P05: plugins of the tree: attachment, aggregation over a node's parts, evidence and its window, moments."""
import math
from itertools import product
from rules import prop
from rules.persist import field_of, seqbase
from rules.paths import uncond, seqs
from algebra import Alg, NoForm
from rulelib import *
import sem

W = TREE + ('MonoWriteHandle::insert', 'MonoWriteHandle::update', 'MonoWriteHandle::refresh')


# ---- P01 -------------------------------------------------------------------------

@prop('P01')
def attach(ctx):
    """every node gets its component after the nodes below it"""
    b = ctx.body('CoverTreeWriter', 'add_plugin')
    evs, _ = ctx.nevents(b, W)
    nc = [e for e in evs if e.kind == 'call' and e.name == 'GokoPlugin::node_component']
    if len(nc) != 1:
        ctx.undecided('add_plugin: node_component')
        return
    nc = nc[0]
    fe = lambda t: strip_mut(t).op == 'call' and strip_mut(t).a[0].endswith('MonoReadHandle::for_each')
    sq = [a.a[0] for a in must_atoms(nc.guard) if a.op == 'each']
    lay = [s for s in sq if not fe(s) and mentions(s, lambda x: selff(x, 'layers')) and not mentions(s, fe)]
    nod = [s for s in sq if mentions(s, fe)]
    if len(lay) != 1 or len(nod) != 1:
        ctx.undecided('add_plugin: loops ' + short(sq))
        return
    lay, nod = lay[0], nod[0]
    base = strip_mut(lay)
    while base.op in ('enumerate', 'mapped', 'zip'):
        base = strip_mut(base.a[0] if base.op != 'zip' or mentions(base.a[0], lambda x: selff(x, 'layers')) else base.a[1])
    ctx.ob('bottom-up', 'layer order', selff(base, 'layers'), nc, 'the layers are not all visited from the bottom up: ' + short(base))
    extra = [a for c in nc.guard for a in c if not loopish(a)]
    ctx.ob('every-node', 'node_component', not extra and not mentions(nod, lambda x: x.op in ('filtered', 'taken', 'stepby')), nc, 'some nodes get no component: ' + short(extra))
    src = nod
    while src.op in ('mapped', 'enumerate', 'rev'):
        src = src.a[0]
    ok = is_param(nc.args[0], 1) and strip_mut(nc.args[1]) is sem.field(sem.elem(src), '1')
    ctx.tri('component', 'arguments', True if ok else None if not is_param(nc.args[0], 1) or strip_mut(nc.args[1]).op != 'field' else False, nc, 'the component is computed for another node: ' + short(nc.args[:2]))
    layer = lambda t: strip_mut(t) is sem.elem(base)
    ctx.ob('component', 'layer', mentions(src, lambda x: layer(x)), nc, 'the nodes are not those of the layer')
    up = calls(evs, 'MonoWriteHandle::update')
    comp = lambda t: is_call(t, 'GokoPlugin::node_component')
    if len(up) != 1:
        ctx.undecided('add_plugin: updates')
        return
    up = up[0]
    h = strip_mut(up.args[0])
    ok = h.op == 'field' and h.a[1] == 'node_writer' and layer(h.a[0])
    k = strip_mut(up.args[1])
    ok = ok and (k is sem.field(sem.elem(src), '0') or (k.op == 'field' and k.a[1] == '1' and isf(k.a[0], 'address')))
    ctx.ob('stored', 'own node', ok, up, 'the component is stored in another node: ' + short(up.args[:2]))
    g = frozenset(frozenset(a for a in c if not loopish(a) and not (a.op == 'is' and a.a[1] == 'Some' and comp(a.a[0]))) for c in up.guard)
    ctx.ob('stored', 'whenever given', g == TRUE or any(not c for c in g), up, 'a component is only stored if ' + short(g))
    ins = [e for e in evs if e.kind == 'call' and e.name.endswith('TypeMap::insert')]
    ni = [e for e in ins if isf(e.args[0], 'plugins') and mentions_deep(e.args[0], lambda x: is_call(x, 'MonoWriteHandle::update'))]
    ctx.tri('stored', 'value', None if not ni else all(mentions_deep(e.args[1], comp) for e in ni) and len(ni) == 1, ni[0] if ni else up, 'another value is stored in the node')
    rf = [e for e in calls(evs, 'MonoWriteHandle::refresh') if any(mentions(q, lambda x: selff(x, 'layers')) for q in seqs(e.guard))]
    ok = [e for e in rf if not [a for c in e.guard for a in c if not loopish(a)] and layer(strip_mut(e.args[0]).a[0]) and event_may_precede(up.e if hasattr(up, 'e') else up, e.e if hasattr(e, 'e') else e)
          and same_turn(up.e if hasattr(up, 'e') else up, e.e if hasattr(e, 'e') else e)
          and not [q for q in seqs(e.guard) if mentions(q, fe)] and all(strip_mut(q) is strip_mut(lay) for q in seqs(e.guard))]
    ctx.ob('published', 'before the next layer', bool(ok), rf[0] if rf else up, 'the components of a layer are not visible when the layer above is computed')
    ti = [e for e in ins if mentions(e.args[0], lambda x: selff(x, 'parameters', 'plugins'))]
    ctx.ob('registered', 'tree plugin', any(is_param(e.args[1], 1) and strip_noise(e.guard) == TRUE for e in ti), ti[0] if ti else b.name, 'the plugin is not registered with the tree')
    pr = [e for e in evs if e.kind == 'call' and e.name == 'GokoPlugin::prepare_tree']
    ctx.ob('prepared', 'before the nodes', any(is_param(e.args[0], 1) and event_before(e.e if hasattr(e, 'e') else e, nc.e if hasattr(nc, 'e') else nc) for e in pr), pr[0] if pr else b.name, 'the components are computed before the tree is prepared')
    b = ctx.body('CoverTreeReader', 'get_plugin_and')
    r = ctx.frame(b).ret()
    ctx.ob('registered', 'lookup', mentions(r, lambda x: selff(x, 'parameters', 'plugins')), b.name, 'tree plugins are looked up elsewhere')


# ---- P02 -------------------------------------------------------------------------

NODE_OPS = ('SummaryCounter::add', 'SummaryCounter::combine', 'Dirichlet::add_child_pop', 'Dirichlet::total', 'Categorical::add_child_pop', 'Categorical::total',
            'DiagGaussian::merge', 'DiagGaussian::add_point')


def mynode(t):
    return is_param(t, 1)


def nodef(t, *names):
    """t is my_node.names"""
    t = strip(t)
    for n in reversed(names):
        if t.op != 'field' or t.a[1] != n:
            return False
        t = strip(t.a[0])
    return t.op == 'param' and t.a[0] == 1


def which(t):
    """the part of the node a term stands for"""
    t = strip(t)
    if nodef(t, 'singles_indexes'):
        return 'singles'
    if t.op == 'elem' and nodef(t.a[0], 'singles_indexes'):
        return 'singles'
    if nodef(t, 'address', '1'):
        return 'centre'
    n = [x for x in subterms(t) if x.op == 'call' and x.a[0] == 'node']
    if len(n) == 1:
        return address(n[0].a[1][1])
    return None


def address(a):
    a = strip_mut(a)
    if a.op == 'elem' and nodef(a.a[0], 'children', 'addresses'):
        return 'child'
    if a.op == 'agg' and len(a.a[1]) == 2 and nodef(a.a[1][0][1], 'children', 'nested_scale') and nodef(a.a[1][1][1], 'address', '1'):
        return 'nested'
    return None


def expand(sim, t):
    """the values a term takes in the turns of a loop over several things"""
    if isinstance(t, tuple):
        outs = [()]
        # elements of the same sequence move together
        for x in subterms_of(t):
            if x.op == 'phi' and len(x.a[0]) > 1 and all(g == TRUE for g, _ in x.a[0]):
                return [y for _, v in x.a[0] if live(sim, v) for y in expand(sim, tuple(subst(z, {x: v}) for z in t))]
        for x in subterms_of(t):
            if x.op == 'elem' and strip_mut(x.a[0]).op in ('new', 'chain'):
                held = sim.content(x.a[0])
                cut = [e for e in sim.evs if e.kind == 'call' and e.args and strip_mut(e.args[0]) is strip_mut(x.a[0]) and e.name.split('::')[-1] in ('dedup_by_key', 'dedup_by', 'truncate', 'retain', 'pop', 'remove', 'swap_remove', 'clear', 'drain', 'split_off')]
                if cut and sim.fired(cut):
                    if any(e.name.split('::')[-1] not in ('dedup_by_key', 'dedup_by', 'truncate', 'retain') for e in cut):
                        raise Unknown(cut[0])
                    # some of what is held is cut off
                    held = held[:1]
                return [y for v in held for y in expand(sim, tuple(subst(z, {x: strip_mut(v)}) for z in t))]
        return [t]
    return [x[0] for x in expand(sim, (t,))]


def subterms_of(ts):
    seen = set()
    for t in ts:
        for x in subterms(t):
            if x not in seen:
                seen.add(x)
                yield x


def live(sim, v):
    for x in subterms(v):
        if x.op == 'elem' and nodef(x.a[0], 'children', 'addresses'):
            return sim.base(mk('each', x.a[0])) is True
    return True


def node_cell(evs, routing, extra=None, singles=2):
    def leaf(t):
        if len_of(t) is not None and nodef(len_of(t), 'singles_indexes') and (extra is None or extra(t) is None):
            return singles
        if t.op in ('empty', 'nonempty') and nodef(t.a[0], 'singles_indexes'):
            return (singles == 0) == (t.op == 'empty')
        if extra:
            v = extra(t)
            if v is not None:
                return v
        if t.op == 'field' and t.a[1] == 'children' and strip(t.a[0]).op == 'param' and strip(t.a[0]).a[0] == 1:
            return ('Some', ('kids',)) if routing else 'None'
        if t.op == 'each':
            x = strip_mut(t.a[0])
            if nodef(x, 'children', 'addresses'):
                return routing
            if nodef(x, 'singles_indexes'):
                return True
        if t.op == 'call' and (t.a[0] == 'node' or t.a[0].endswith('TypeMap::get')):
            return ('Some', ('plug',))
        return None
    return Sim(evs, leaf)


def tally(items):
    d = {}
    for x in items:
        d[x] = d.get(x, 0) + 1
    return d


def summary_parts(ctx, owner, method, single):
    """what goes into a label / metadata summary"""
    b = ctx.body(owner, 'node_component', 'GokoPlugin')
    evs, mp = ctx.nevents(b, TREE + NODE_OPS)
    ret = subst(ctx.frame(b, TREE + NODE_OPS).ret(), mp)
    for routing, n in product((False, True), (0, 2)):
        sim = node_cell(evs, routing, singles=n)
        nm = owner + (' routing node' if routing else ' leaf') + ' singletons=%d' % n
        want = {'singles': 1, 'nested': 1, 'child': 1} if routing else {'singles': 1, 'centre': 1}
        got = []
        try:
            r = sim.term(ret)
            s = field_of(payload(r), 'summary') if strip_mut(r).op == 'some' else None
            if s is None:
                ctx.tri('aggregate', nm, None, b.name, 'result ' + short(r))
                continue
            acc = strip_mut(s)
            st = strip(acc)
            if st.op == 'call' and st.a[0].endswith('::' + method):
                got.append(which(st.a[1][1]))
            elif st.op in ('new', 'agg') or st.op == 'call' and st.a[0].split('::')[-1] in ('default', 'new'):
                pass
            else:
                got.append(None)
            for e in sim.fired([e for e in evs if e.kind == 'call' and e.name in ('SummaryCounter::add', 'SummaryCounter::combine') and strip(e.args[0]) is st]):
                for a in expand(sim, (e.args[1],)):
                    x = strip(a[0])
                    if e.name.endswith('combine'):
                        got.append(which(x))
                    elif x.op == 'call' and x.a[0].endswith('::' + single):
                        got.append(which(x.a[1][1]))
                    else:
                        got.append(None)
        except Unknown as u:
            ctx.tri('aggregate', nm, None, b.name, u)
            continue
        if None in got:
            ctx.tri('aggregate', nm, None, b.name, got)
            continue
        ctx.ob('aggregate', nm, tally(got) == want, b.name, 'the summary is made of %s instead of %s' % (tally(got), want))


@prop('P02')
def summaries(ctx):
    summary_parts(ctx, 'LabelSummaryPlugin', 'label_summary', 'label')
    summary_parts(ctx, 'MetaSummaryPlugin', 'metasummary', 'metadata')


@prop('P02')
def coverage(ctx):
    """the points under a node"""
    b = ctx.body('GokoCoverageIndexes', 'node_component', 'GokoPlugin')
    evs = ctx.events(b, TREE)
    ret = ctx.frame(b, TREE).ret()
    for routing, cov, mx in product((False, True), (1, 5), (1, 2, 5, 6)):
        def extra(t):
            if t.op == 'field' and t.a[1] == 'coverage_count' and is_param(t.a[0], 1):
                return cov
            if t.op == 'field' and t.a[1] == 'max' and is_param(t.a[0], 0):
                return mx
            return None
        sim = node_cell(evs, routing, extra)
        nm = 'coverage %s count=%d max=%d' % ('routing node' if routing else 'leaf', cov, mx)
        try:
            r = strip_mut(sim.term(ret))
            if r.op not in ('some', 'agg'):
                ctx.tri('aggregate', nm, None, b.name, 'result ' + short(r))
                continue
            some = r.op == 'some'
            ctx.ob('limit', nm, some == (cov < mx), b.name, 'a node that covers %d points %s its list with a limit of %d' % (cov, 'has' if some else 'lacks', mx))
            if not some:
                continue
            v = field_of(payload(r), 'pis')
            if v is None:
                ctx.undecided('coverage: ' + short(r))
                continue
            got = coverage_parts(sim, evs, strip_mut(v))
        except Unknown as u:
            ctx.tri('aggregate', nm, None, b.name, u)
            continue
        want = {'singles': 1, 'nested': 1, 'child': 1} if routing else {'singles': 1, 'centre': 1}
        if None in got:
            ctx.tri('aggregate', nm, None, b.name, got)
            continue
        ctx.ob('aggregate', nm, tally(got) == want, b.name, 'the list is made of %s instead of %s' % (tally(got), want))
    for meth, want in (('new', None), ('restricted', 0)):
        b = ctx.body('GokoCoverageIndexes', meth)
        v = field_of(ctx.frame(b).ret(), 'max')
        ok = v is not None and (is_param(v, 0) if want is not None else (v.op == 'const' and 'MAX' in v.a[0]) or intval(v) == 2 ** 64 - 1)
        ctx.ob('limit', meth, ok, b.name, 'the limit is ' + short(v))


def coverage_parts(sim, evs, v):
    got = []
    if v.op == 'chain':
        return coverage_parts(sim, evs, strip_mut(v.a[0])) + coverage_parts(sim, evs, strip_mut(v.a[1]))
    w = which(v)
    if w is not None:
        got.append(w)
    elif v.op != 'new':
        return [None]
    for e in sim.fired([e for e in evs if e.kind == 'call' and e.args and strip_mut(e.args[0]) is v and e.name.split('::')[-1] in GROW + SHRINK]):
        meth = e.name.split('::')[-1]
        if meth not in ('push', 'extend', 'extend_from_slice', 'append'):
            return [None]
        for a in expand(sim, (e.args[1],)):
            got.append(which(a[0]))
    return got


@prop('P02')
def populations(ctx):
    """child and singleton counts of the discrete plugins"""
    for owner, typ in (('GokoDirichlet', 'Dirichlet'), ('GokoCategorical', 'Categorical')):
        b = ctx.body(owner, 'node_component', 'GokoPlugin')
        evs = ctx.events(b, TREE + NODE_OPS)
        ret = ctx.frame(b, TREE + NODE_OPS).ret()
        for routing, n in product((False, True), (0, 1, 7)):
            def extra(t):
                if len_of(t) is not None and nodef(len_of(t), 'singles_indexes'):
                    return n
                if t.op == 'call' and t.a[0].endswith(typ + '::total'):
                    return {'nested': 100.0, 'child': 1000.0}.get(which(t.a[1][0]))
                if t.op == 'field' and t.a[1] == 'coverage_count':
                    return {'nested': 100, 'child': 1000}.get(which(t.a[0])) or (n + 1100 if routing and is_param(t.a[0], 1) else n + 1 if is_param(t.a[0], 1) else None)
                return None
            sim = node_cell(evs, routing, extra)
            nm = '%s %s singletons=%d' % (owner, 'routing node' if routing else 'leaf', n)
            want = {'nested': 100, 'child': 1000, 'own': n} if routing else {'own': n + 1}
            got, bad = {}, None
            try:
                r = sim.term(ret)
                if strip_mut(r).op != 'some':
                    ctx.tri('populations', nm, None, b.name, short(r))
                    continue
                acc = payload(r)
                for e in sim.fired([e for e in evs if e.kind == 'call' and e.name == typ + '::add_child_pop']):
                    for a in expand(sim, (e.args[0], e.args[1], e.args[2])):
                        l = strip_mut(sim.term(a[1]))
                        k = address(payload(l)) if l.op == 'some' else 'own' if l.op == 'agg' and l.a[0].endswith('None') else None
                        if k is None:
                            bad = l
                        got[k] = got.get(k, 0) + sim.val(a[2])
            except Unknown as u:
                ctx.tri('populations', nm, None, b.name, u)
                continue
            if bad is not None:
                ctx.tri('populations', nm, None, b.name, bad)
                continue
            got = {k: v for k, v in got.items() if v or k != 'own'}
            want = {k: v for k, v in want.items() if v or k != 'own'}
            ctx.ob('populations', nm, got == want, b.name, 'the node is populated with %s instead of %s' % (got, want))


@prop('P02')
def gaussian_parts(ctx):
    b = ctx.body('GokoDiagGaussian', 'node_component', 'GokoPlugin')
    evs = ctx.events(b, TREE + NODE_OPS)
    ret = ctx.frame(b, TREE + NODE_OPS).ret()
    for routing, rec, n in product((False, True), (False, True), (0, 2)):
        def extra(t):
            if t.op == 'field' and t.a[1] == 'recursive' and is_param(t.a[0], 0):
                return rec
            return None
        sim = node_cell(evs, routing, extra, n)
        nm = 'gaussian %s recursive=%s singletons=%d' % ('routing node' if routing else 'leaf', rec, n)
        got = []
        try:
            r = sim.term(ret)
            if strip_mut(r).op != 'some':
                ctx.tri('aggregate', nm, None, b.name, short(r))
                continue
            d = payload(r)
            m1, m2, c = (field_of(d, f) for f in ('moment1', 'moment2', 'count'))
            ok = None
            if None not in (m1, m2, c):
                ok = is_call(strip(m1), 'moment_1') and is_call(strip(m2), 'moment_2') and which(strip(m1).a[1][1]) == 'singles' and which(strip(m2).a[1][1]) == 'singles' and len_of(c) is not None and nodef(len_of(c), 'singles_indexes')
                if not ok and not (is_call(strip(m1), 'moment_1') or is_call(strip(m1), 'moment_2')):
                    ok = None
            ctx.tri('moments', nm, ok, b.name, 'the moments of the singletons are (%s, %s, %s)' % (short(m1), short(m2), short(c)))
            for e in sim.fired([e for e in evs if e.kind == 'call' and e.name in ('DiagGaussian::merge', 'DiagGaussian::add_point')]):
                for a in expand(sim, (e.args[1],)):
                    x = strip(a[0])
                    if e.name.endswith('merge'):
                        got.append(which(x))
                    elif x.op == 'call' and x.a[0].endswith('::point'):
                        got.append(which(x.a[1][1]))
                    else:
                        got.append(None)
        except Unknown as u:
            ctx.tri('aggregate', nm, None, b.name, u)
            continue
        want = {'centre': 1} if not routing else {'nested': 1, 'child': 1} if rec else {}
        if None in got:
            ctx.tri('aggregate', nm, None, b.name, got)
            continue
        ctx.ob('aggregate', nm, tally(got) == want, b.name, 'besides the singletons the gaussian holds %s instead of %s' % (tally(got), want))
    for meth, want in (('recursive', True), ('singletons', False)):
        b = ctx.body('GokoDiagGaussian', meth)
        v = field_of(ctx.frame(b).ret(), 'recursive')
        ctx.ob('mode', meth, v is not None and v.op == 'const' and v.a[0] == str(want).lower(), b.name, 'recursive is ' + short(v))


# ---- P03 -------------------------------------------------------------------------

def near(a, b):
    if isinstance(a, float) and isinstance(b, float) and (math.isinf(a) or math.isinf(b)):
        return a == b
    return a is not None and b is not None and abs(a - b) < 1e-9


def search(t):
    """t is the lookup of an address in self.child_counts"""
    t = strip(t) if t.op != 'err' else strip_mut(t.a[0])
    return t.op == 'call' and t.a[0].split('::')[-1].startswith('binary_search') and selff(t.a[1][0], 'child_counts')


def entry(t):
    """t is the count of the entry the lookup found"""
    t = strip_mut(t)
    return t.op == 'field' and t.a[1] == '1' and mentions(t.a[0], search) and mentions(t.a[0], lambda x: selff(x, 'child_counts')) and strip(t.a[0]).op in ('index', 'call')


def placed(sim, t):
    """the entry t is the one at the place the lookup gave"""
    x = strip(strip_mut(t).a[0])
    if x.op != 'index':
        return True
    i = strip_mut(sim.term(x.a[1]))
    return i.op == 'err' and search(i) or i.op == 'payload' and search(i.a[0]) or search(i)


def total_of(A, S):
    return A.add(A.poly(sem.field(S, 'singleton_count')), A.sum(sem.field(S, 'child_counts'), A.poly(sem.field(sem.elem(sem.field(S, 'child_counts')), '1'))))


class Counts:
    """number leaves for a Categorical/Dirichlet: entry, singletons, count, total"""

    def __init__(self, fr, evs, **kw):
        self.A = Alg(evs)
        self.tot = total_of(self.A, fr.args[0])
        self.kw = kw
        self.sim = None

    def __call__(self, t, st=None):
        kw = dict(self.kw)
        if st:
            kw.update(st)
        if t.op == 'param' and t.a[0] == 1 and 'loc' in kw:
            return 'None' if kw['loc'] is None else ('Some', ('addr',))
        if t.op == 'param' and t.a[0] == 2 and 'c' in kw:
            return kw['c']
        if selff(t, 'singleton_count') and 's' in kw:
            return kw['s']
        if t.op == 'is' and search(t.a[0]) and strip_mut(t.a[0]).op == 'call' and 'loc' in kw:
            return (t.a[1] in ('Ok', 'Some')) == (kw['loc'] == 'found')
        if t.op == 'call' and search(t) and 'loc' in kw:
            return ('Some', ('pos',)) if kw['loc'] == 'found' else 'None'
        if entry(t) and isinstance(kw.get('new'), float):
            return kw['new']
        if entry(t) and 'x' in kw:
            return kw['x']
        if 'tot' in kw and t.op in ('bin', 'phi', 'call') and (t.op != 'bin' or t.a[0] in ('Add', 'Sub')):
            if self.A.eq(t, self.tot):
                return kw['tot']
        if t.op == 'call' and t.a[0].split('::')[-1] == 'ln' and self.sim is not None:
            v = self.sim.val(t.a[1][0])
            return math.log(v) if v > 0 else float('-inf')
        if t.op == 'bin' and t.a[0] == 'Max' or t.op == 'call' and t.a[0].split('::')[-1] == 'max' and len(t.a[1]) == 2:
            if self.sim is not None:
                a = t.a[1:] if t.op == 'bin' else t.a[1]
                return max(self.sim.val(a[0]), self.sim.val(a[1]))
        return None


@prop('P03')
def counting(ctx):
    """adding to and removing from the counts"""
    for typ, meth, rem in product(('Categorical', 'Dirichlet'), ('add_child_pop', 'remove_child_pop'), (0,)):
        b = ctx.body(typ, meth)
        evs = ctx.events(b)
        fr = ctx.frame(b)
        for loc, c in product((None, 'found', 'missing'), (0.5, 2.0, 4.5, 5.0, 5.5, 7.0)):
            read = Counts(fr, evs, loc=loc, c=c)
            init = {'s': 5.0, 'x': 5.0, 'new': None}

            def effect(e, sim, st):
                read.sim = sim
                if e.kind == 'write':
                    if selff(e.lval, 'singleton_count'):
                        st['s'] = sim.val(e.val)
                    elif entry(e.lval) and not placed(sim, e.lval):
                        i = strip_mut(sim.term(strip(strip_mut(e.lval).a[0]).a[1]))
                        if not (i.op == 'bin' and i.a[0] in ('Add', 'Sub') or i.op == 'call' and i.a[0].split('::')[-1] in ('saturating_sub', 'saturating_add', 'wrapping_sub', 'wrapping_add')):
                            raise Unknown(e.lval)
                        st['elsewhere'] = 'the count of a neighbour is changed'
                    elif entry(e.lval) and loc == 'missing':
                        if st['new'] is None:
                            raise Unknown(e.lval)
                        st['new'] = sim.val(e.val)
                    elif entry(e.lval):
                        st['x'] = sim.val(e.val)
                    elif mentions(e.lval, lambda x: x.op == 'param' and x.a[0] == 0):
                        raise Unknown(e.lval)
                    else:
                        return False
                    return True
                if e.kind == 'call' and e.args and selff(e.args[0], 'child_counts') and e.name.split('::')[-1] in GROW + SHRINK:
                    m = e.name.split('::')[-1]
                    if m == 'insert' and strip_mut(e.args[1]).op == 'err' and search(e.args[1]):
                        k, v = sem.field(e.args[2], '0'), sem.field(e.args[2], '1')
                        if not is_param(strip(k), 1):
                            raise Unknown(k)
                        st['new'] = sim.val(v)
                    elif m == 'insert':
                        if intval(e.args[1]) is not None or len_of(strip_mut(e.args[1])) is not None:
                            st['new'] = 'out of order'
                        else:
                            raise Unknown(e)
                    elif m == 'push':
                        if any(x.kind == 'call' and x.name.split('::')[-1].startswith('sort') for x in evs):
                            raise Unknown(e)
                        st['new'] = 'out of order'
                    elif m == 'remove' and meth == 'remove_child_pop' and search(e.args[1]):
                        st['x'], st['new'] = 0.0, 'removed'
                    else:
                        raise Unknown(e)
                    return True
                return False
            want = dict(init)
            if meth == 'add_child_pop':
                if loc is None:
                    want['s'] += c
                elif loc == 'found':
                    want['x'] += c
                else:
                    want['new'] = c
            elif loc is None:
                want['s'] = max(0.0, want['s'] - c)
            elif loc == 'found':
                want['x'] = max(0.0, want['x'] - c)
            nm = '%s::%s %s count=%g' % (typ, meth, {None: 'singleton', 'found': 'known child', 'missing': 'new child'}[loc], c)
            try:
                outs = post_states(evs, init, read, effect)
            except Unknown as u:
                ctx.tri('counts', nm, None, b.name, u)
                continue
            ctx.tri('counts', nm, agree(outs, lambda o: o == want), b.name, 'leaves %s instead of %s' % (outs[0], want))


@prop('P03')
def lookups(ctx):
    """every lookup walks the addresses in the order they are kept in"""
    for typ, meth in (('Categorical', 'add_child_pop'), ('Categorical', 'remove_child_pop'), ('Categorical', 'ln_pdf'), ('Dirichlet', 'add_child_pop'), ('Dirichlet', 'remove_child_pop'),
                      ('Dirichlet', 'ln_pdf'), ('Dirichlet', 'posterior_kl_divergence')):
        b = ctx.body(typ, meth)
        evs = ctx.events(b)
        for e in evs:
            if e.kind != 'call' or not e.name.split('::')[-1].startswith('binary_search') or not selff(e.args[0], 'child_counts'):
                continue
            r = closure_value(ctx.frame(b), e)
            m = e.name.split('::')[-1]
            ok = None
            el = lambda t: mentions(t, lambda x: x.op == 'elem' and selff(x.a[0], 'child_counts'))
            if r is not None and m == 'binary_search_by_key':
                ok = strip_mut(r) is sem.field(sem.elem(strip_mut(e.args[0])), '0')
            elif r is not None and m == 'binary_search_by':
                c = [x for x in subterms(r) if x.op == 'call' and x.a[0].split('::')[-1] in ('cmp', 'partial_cmp') and len(x.a[1]) == 2]
                if len(c) == 1 and el(c[0].a[1][0]) != el(c[0].a[1][1]):
                    ok = el(c[0].a[1][0]) != mentions_deep(r, lambda x: is_call(x, 'reverse'))
            ctx.tri('order', '%s::%s' % (typ, meth), ok, e, 'the lookup orders the addresses differently from the insertion')


def added(ctx, b, evs, who, other, nm):
    """every count of `other` is added once to its own key"""
    for own in (0, 2, 3, 5):
        added_to(ctx, b, evs, who, other, nm, own)


def added_to(ctx, b, evs, who, other, nm, own):
    """a cell: `other` holds 3 children, the one added to holds `own`, other ones than those of `other`"""
    seq = lambda t: isf(t, 'child_counts') and is_param(strip(t).a[0], other)
    mine = lambda t: isf(t, 'child_counts') and is_param(strip(t).a[0], who)
    key = lambda t, q: strip_mut(t).op == 'field' and strip_mut(t).a[1] == '0' and strip_mut(t).a[0].op == 'elem' and q(strip_mut(t).a[0].a[0])

    def leaf(t):
        if t.op == 'each' and seq(strip_mut(t.a[0])):
            return True
        if t.op == 'each' and mine(strip_mut(t.a[0])):
            return own > 0
        if t.op == 'each' and strip_mut(t.a[0]).op == 'zip' and all(seq(x) or mine(x) for x in strip_mut(t.a[0]).a):
            return own > 0
        if t.op in ('empty', 'nonempty') and seq(strip_mut(t.a[0])):
            return t.op == 'nonempty'
        if t.op in ('empty', 'nonempty') and mine(strip_mut(t.a[0])):
            return (t.op == 'nonempty') == (own > 0)
        if t.op in ('Eq', 'Ne') and any(key(t.a[k], mine) and key(t.a[1 - k], seq) for k in (0, 1)):
            return t.op == 'Ne'
        if t.op == 'bin' and t.a[0] in ('Eq', 'Ne') and any(key(t.a[1 + k], mine) and key(t.a[2 - k], seq) for k in (0, 1)):
            return t.a[0] == 'Ne'
        if len_of(t) is not None and seq(strip_mut(len_of(t))):
            return 3
        if len_of(t) is not None and mine(strip_mut(len_of(t))):
            return own
        if t.op == 'field' and t.a[1] == '1' and t.a[0].op == 'elem' and seq(t.a[0].a[0]):
            return 30.0
        if t.op == 'field' and t.a[1] == 'singleton_count' and is_param(t.a[0], other):
            return 4.0
        if t.op == 'field' and t.a[1] == 'singleton_count' and is_param(t.a[0], who):
            return 7.0
        return None
    sim = Sim(evs, leaf)
    got = {}
    nm = nm + ('' if own == 3 else ' to %d children' % own)
    try:
        for e in sim.fired([e for e in evs if e.kind == 'write' and mentions(e.lval, lambda x: x.op == 'elem' and mine(x.a[0])) and mentions(e.val, lambda x: x.op == 'elem' and seq(x.a[0]))]):
            got['whatever child is at the same place'] = 30.0
        for e in sim.fired([e for e in evs if e.kind == 'write' and mentions(e.lval, lambda x: is_param(x, who)) or e.kind == 'call' and e.args and mine(e.args[0]) and e.name.split('::')[-1] in GROW + SHRINK]):
            if e.kind == 'write' and isf(e.lval, 'singleton_count') and is_param(strip(e.lval).a[0], who):
                v = sim.val(e.val) - 7.0
                v = 'once per child' if is_loop_guard(e.guard) else v
                got['own'] = v if 'own' not in got or isinstance(v, str) else got['own'] + v
            elif e.kind == 'write' and mine(e.lval) and seq(strip_mut(e.val)):
                got['child'] = 30.0 if own == 0 else 'in place of those held'
            elif e.kind == 'write' and mentions(e.lval, lambda x: x.op == 'elem' and mine(x.a[0])) and mentions(e.val, lambda x: x.op == 'elem' and seq(x.a[0])):
                pass
            else:
                raise Unknown(e)
        for e in sim.fired([e for e in evs if e.kind == 'call' and e.name.endswith('::add_child_pop')]):
            if not is_param(e.args[0], who):
                raise Unknown(e)
            l = strip_mut(sim.term(e.args[1]))
            k = strip_mut(payload(l)) if l.op == 'some' else None
            if l.op == 'some':
                kk = 'child' if k.op == 'field' and k.a[1] == '0' and k.a[0].op == 'elem' and seq(k.a[0].a[0]) else None
            else:
                kk = 'own' if l.op == 'agg' and l.a[0].endswith('None') else None
            if kk is None:
                raise Unknown(l)
            v = sim.val(e.args[2])
            if is_loop_guard(e.guard) and kk == 'own':
                v = 'once per child'
            got[kk] = v if kk not in got or isinstance(v, str) else got[kk] + v
    except Unknown as u:
        ctx.tri('evidence', nm, None, b.name, u)
        return
    want = {'child': 30.0, 'own': 4.0}
    ctx.ob('evidence', nm, got == want, b.name, 'adds %s instead of %s' % (got, want))


@prop('P03')
def distributions(ctx):
    for typ in ('Categorical', 'Dirichlet'):
        b = ctx.body(typ, 'total')
        fr = ctx.frame(b)
        A = Alg(ctx.events(b))
        ctx.tri('total', typ, A.eq(fr.ret(), total_of(A, fr.args[0])), b.name, 'the total is ' + short(fr.ret()))

        b = ctx.body(typ, 'merge' if typ == 'Categorical' else 'add_evidence')
        added(ctx, b, ctx.events(b, (typ + '::add_child_pop',)), 0, 1, b.name.split('::')[-1])

        b = ctx.body(typ, 'prob_vector')
        fr, evs = ctx.frame(b), ctx.events(b)
        for tot in (0.0, 0.25, 8.0):
            read = Counts(fr, evs, tot=tot)
            sim = Sim(evs, read)
            r = picked(sim, fr.ret())
            nm = '%s::prob_vector total=%g' % (typ, tot)
            if r is None or r.op not in ('some', 'agg'):
                ctx.tri('probabilities', nm, None, b.name, short(fr.ret()))
                continue
            ctx.ob('probabilities', nm, (r.op == 'some') == (tot > 0), b.name, 'a distribution of total %g has %s probabilities' % (tot, 'its' if r.op == 'some' else 'no'))
            if r.op != 'some' or tot < 1:
                continue
            A, inv = read.A, read.A.inv(read.tot)
            v, w = strip_mut(sem.field(payload(r), '0')), sem.field(payload(r), '1')
            cc = sem.field(fr.args[0], 'child_counts')
            vv = resolve_seq(v, evs)
            if vv is None or vv.op != 'mapped' or strip_mut(vv.a[0]) is not cc:
                ctx.tri('probabilities', typ + ' children', None, b.name, short(v))
            else:
                x = vv.a[1]
                ok = A.eq(sem.field(x, '1'), A.mul(A.poly(sem.field(sem.elem(cc), '1')), inv))
                ctx.tri('probabilities', typ + ' children', ok and strip_mut(sem.field(x, '0')) is sem.field(sem.elem(cc), '0') if ok is not None else None, b.name, 'the probability of a child is ' + short(x))
            ctx.tri('probabilities', typ + ' singletons', A.eq(w, A.mul(A.poly(sem.field(fr.args[0], 'singleton_count')), inv)), b.name, 'the probability of the singletons is ' + short(w))

        b = ctx.body(typ, 'ln_pdf')
        fr, evs = ctx.frame(b), ctx.events(b)
        for tot, loc in product((0.0, 0.5, 9.0), (None, 'found', 'missing')):
            if typ == 'Dirichlet' and not tot:
                continue
            read = Counts(fr, evs, tot=tot, loc=loc, s=3.0, x=2.0)
            sim = read.sim = Sim(evs, read)
            nm = '%s::ln_pdf total=%g %s' % (typ, tot, {None: 'singletons', 'found': 'known child', 'missing': 'unknown child'}[loc])
            r = picked(sim, fr.ret())
            if r is None or r.op not in ('some', 'agg'):
                ctx.tri('density', nm, None, b.name, short(fr.ret()))
                continue
            if tot == 0.0:
                ctx.ob('density', nm, r.op != 'some', b.name, 'an empty distribution has a density')
                continue
            if r.op != 'some':
                ctx.ob('density', nm, False, b.name, 'no density')
                continue
            try:
                v = sim.val(payload(r))
            except Unknown as u:
                ctx.tri('density', nm, None, b.name, u)
                continue
            n = {None: 3.0, 'found': 2.0, 'missing': 0.0}[loc]
            want = math.log(n / tot) if n else float('-inf')
            ctx.ob('density', nm, near(float(v), want), b.name, 'the log density is %s instead of ln(%g/%g)' % (v, n, tot))
        drawn(ctx, typ)
    b = ctx.body('Dirichlet', 'weight')
    fr, evs = ctx.frame(b), ctx.events(b)
    A = Alg(evs)
    w = A.poly(fr.args[1])
    for nm, lv in (('children', sem.field(sem.elem(sem.field(fr.args[0], 'child_counts')), '1')), ('singletons', sem.field(fr.args[0], 'singleton_count'))):
        es = [e for e in evs if e.kind == 'write' and strip_mut(e.lval) is lv]
        if len(es) != 1:
            ctx.tri('weight', nm, None if es or any(e.kind == 'write' for e in evs) and nm == 'children' else False, b.name, 'the %s are not weighted' % nm)
            continue
        g = [a for c in es[0].guard for a in c if not loopish(a)]
        ok = A.eq(es[0].val, A.mul(w, A.poly(lv)))
        ctx.tri('weight', nm, ok if not g or ok is False else None, es[0], 'the weighted count is ' + short(es[0].val))
    b = ctx.body('Dirichlet', 'add_observation')
    evs = ctx.events(b, ('Dirichlet::add_child_pop',))
    es = calls(evs, 'Dirichlet::add_child_pop')
    if len(es) != 1:
        ctx.undecided('add_observation')
    else:
        e = es[0]
        ctx.ob('evidence', 'add_observation', e.guard == TRUE and is_param(e.args[0], 0) and is_param(e.args[1], 1) and floatval(strip_mut(e.args[2])) == 1.0, e, 'an observation is recorded as ' + short(e.args))
    for typ in ('Categorical', 'Dirichlet'):
        b = ctx.body(typ, 'new')
        v = field_of(ctx.frame(b).ret(), 'singleton_count')
        if v is not None:
            ctx.ob('empty', typ, floatval(strip_mut(v)) == 0.0, b.name, 'a new distribution starts with ' + short(v))


def picked(sim, t):
    """the alternative of t taken in this cell (top level only)"""
    for g, v in early(alts(strip_mut(t))):
        k = sim.guard(g)
        if k is None:
            return None
        if k:
            return strip_mut(v)
    return None


def resolve_seq(v, evs):
    v = strip_mut(v)
    if v.op == 'new':
        v = collected(evs).get(v)
    return v


def drawn(ctx, typ):
    """sample: the child whose slice of [0,total) holds the draw"""
    b = ctx.body(typ, 'sample')
    fr, evs = ctx.frame(b), ctx.events(b)
    cc = sem.field(fr.args[0], 'child_counts')
    A = Alg(evs)
    tot = total_of(A, fr.args[0])
    draw = lambda t: t.op == 'call' and t.a[0].split('::')[-1] in ('sample', 'gen_range') and not t.a[0].startswith(typ)
    dr = [e for e in evs if e.kind == 'call' and e.name.split('::')[-1] in ('sample', 'gen_range') and not e.name.startswith(typ)]
    ok = None
    for e in dr:
        for x in subterms(e.args[0] if e.name.endswith('sample') else e.args[1]):
            if x.op == 'agg' and x.a[0].split('::')[-1] == 'Range':
                d = dict(x.a[1])
                en = strip_mut(d['end'])
                ok = (intval(d['start']) == 0 or floatval(strip_mut(d['start'])) == 0.0) and A.eq(en, tot)
    ctx.tri('draw', typ + ' range', ok, dr[0] if dr else b.name, 'the draw is not over the total')
    recs = {}
    for t in [fr.ret()] + [x for e in evs for x in [e.val if e.kind in ('set', 'write') else fr.ret()] + [y for g in e.guard for y in g]]:
        for x in subterms(t):
            if x.op == 'phi' and len([1 for _, v in x.a[0] if v.op == 'rec']) == 1 and len(x.a[0]) == 2:
                recs[[v for _, v in x.a[0] if v.op == 'rec'][0]] = [v for _, v in x.a[0] if v.op != 'rec'][0]
    held = (2., 3., 1.)
    for d in (0., 1., 2., 3., 4., 5., 6., 7., 8.):
        want = 0 if d < 2 else 1 if d < 5 else 2 if d < 6 else None
        nm = '%s::sample draw=%g' % (typ, d)
        turn = {}

        def leaf(t):
            if t.op in ('each', 'done') and strip_mut(t.a[0]) is cc:
                return True
            if draw(t):
                return d
            if t is sem.field(sem.elem(cc), '1') and 'c' in turn:
                return turn['c']
            r = [t] if t.op == 'rec' else [v for _, v in t.a[0] if v.op == 'rec'] if t.op == 'phi' else []
            if len(r) == 1 and r[0] in turn:
                return turn[r[0]]
            return None
        sim = Sim(evs, leaf)
        got = 'unknown'
        try:
            for r, ini in recs.items():
                turn[r] = sim.val(ini)
            for i, c in enumerate(held):
                turn['c'] = c
                rs = [(g, strip_mut(v)) for g, v in alts(strip_mut(fr.ret()))]
                rs = [(sim.guard(g), v) for g, v in rs if v.op != 'agg']
                if any(k is None or v.op != 'some' or strip_mut(payload(v)) is not sem.field(sem.elem(cc), '0') for k, v in rs):
                    raise Unknown(fr.ret())
                if any(k for k, v in rs):
                    got = i
                    break
                new = {}
                for e in evs:
                    if e.kind == 'set' and e.lval.op == 'var' and mk('rec', *e.lval.a[:2]) in recs and is_loop_guard(e.guard):
                        k = sim.guard(e.guard)
                        if k is None:
                            raise Unknown(e)
                        if k:
                            new[mk('rec', *e.lval.a[:2])] = sim.val(e.val)
                turn.update(new)
            else:
                got = None
        except Unknown as u:
            ctx.tri('draw', nm, None, b.name, u)
            continue
        ctx.ob('draw', nm, got == want, b.name, 'of counts 2, 3, 1 it gives %s' % ('none' if got is None else 'number %d' % got))


# ---- P04 -------------------------------------------------------------------------

TRK = 'BayesCategoricalTracker'
DISTR = ('Categorical::merge', 'Categorical::add_child_pop', 'Categorical::remove_child_pop', 'Categorical::prob_vector', 'Dirichlet::add_evidence', 'Dirichlet::prob_vector',
         'Dirichlet::posterior_kl_divergence')


class Trace:
    """positions of the addresses of a path of n nodes: a loop is unrolled over its turns"""

    def __init__(self, seq, n):
        self.seq, self.n, self.vars, self.world = seq, n, {}, {}

    def size(self, s):
        s = strip_mut(s)
        if s is self.seq:
            return self.n
        if s.op in ('mapped', 'enumerate', 'rev'):
            return self.size(s.a[0])
        if s.op == 'taken':
            k = intval(s.a[2])
            if k is None:
                k = self.int(s.a[2], {})
            n = self.size(s.a[0])
            return max(0, n - k) if s.a[1] == 'skip' else min(n, k)
        if s.op in ('index', 'payload', 'getopt'):
            lo, hi = self.part(s)
            return max(0, hi - lo)
        if s.op == 'zip':
            return min(self.size(s.a[0]), self.size(s.a[1]))
        if s.op == 'windows':
            return max(0, self.size(s.a[0]) - self.int(s.a[1], {}) + 1)
        if s.op == 'agg' and s.a[0].split('::')[-1] == 'Range':
            d = dict(s.a[1])
            return max(0, self.int(d['end'], {}) - self.int(d['start'], {}))
        raise Unknown(s)

    def whole(self, s):
        s = strip_mut(s)
        if s.op == 'payload':
            s = strip_mut(s.a[0])
        a = s.a if s.op in ('index', 'getopt') else s.a[1] if s.op == 'call' and s.a[0].split('::')[-1] in ('get', 'index') else None
        if a is None or len(a) != 2 or rng(a[1]) is None:
            raise Unknown(s)
        return a

    def part(self, s):
        """bounds, within the sequence it is a part of, of a slice taken by a range"""
        q, r = self.whole(s)
        r = rng(r)
        n = self.size(q)
        lo = 0 if r[1] is None else self.int(r[1], {})
        hi = n if r[2] is None else self.int(r[2], {}) + (1 if 'Inclusive' in r[0] else 0)
        return lo, hi

    def start(self, s):
        """position of the first element elem(trace) stands for"""
        s = strip_mut(s)
        if s is self.seq:
            return 0
        if s.op in ('mapped', 'enumerate', 'zip', 'windows'):
            return self.start(s.a[0])
        if s.op in ('index', 'payload', 'getopt'):
            return self.start(self.whole(s)[0]) + self.part(s)[0]
        if s.op == 'taken':
            return self.start(s.a[0]) + (self.int(s.a[2], {}) if s.a[1] == 'skip' else 0)
        if s.op == 'agg' and s.a[0].split('::')[-1] == 'Range':
            return self.int(dict(s.a[1])['start'], {})
        raise Unknown(s)

    def int(self, t, env):
        def leaf(x):
            if len_of(x) is not None and strip_mut(len_of(x)) is self.seq:
                return self.n
            if x.op in ('rangeidx', 'idx', 'elem') and x in env:
                return env[x]
            if x.op == 'idx' and strip_mut(x.a[0]) is self.seq and 'at' in env:
                return env['at']
            if x.op in ('rangeidx', 'elem') and 'range' in env:
                return env['range']
            return None
        return Model(leaf).val(t)

    def pos(self, t, env):
        """index of the trace entry t denotes"""
        t = strip_mut(t)
        if t.op == 'payload':
            c = strip_mut(t.a[0])
            if c.op == 'call':
                m = c.a[0].split('::')[-1]
                if m == 'last':
                    return self.start(c.a[1][0]) + self.size(c.a[1][0]) - 1
                if m in ('first', 'next'):
                    return self.start(c.a[1][0])
                if m == 'get' and strip_mut(c.a[1][0]) is self.seq:
                    return self.int(c.a[1][1], env)
            if c.op == 'getopt' and strip_mut(c.a[0]) is self.seq and rng(c.a[1]) is None:
                return self.int(c.a[1], env)
        if t.op == 'elem' and strip_mut(t.a[0]) is self.seq and 'at' in env:
            return env['at']
        if t.op == 'after':
            return self.pos(t.a[0], env) + self.int(t.a[1], env) if isinstance(t.a[1], T) else self.pos(t.a[0], env) + t.a[1]
        if t.op == 'index' and strip_mut(t.a[0]) is self.seq:
            return self.int(t.a[1], env)
        raise Unknown(t)

    def addr(self, t, env):
        t = strip_mut(t)
        if t.op == 'after':
            # after(elem(x).1, k)
            p = self.addr(t.a[0], env)
            k = self.int(t.a[1], env) if isinstance(t.a[1], T) else t.a[1]
            return p + k
        if t.op == 'field' and t.a[1] == '1':
            return self.pos(t.a[0], env)
        if t.op == 'payload':
            v = self.opt(t.a[0], env)
            if v is not None:
                return v
        raise Unknown(t)

    def carried(self, t):
        """the variable, carried from turn to turn, that t reads"""
        rs = [t] if t.op == 'rec' else [x for _, x in t.a[0] if x.op == 'rec'] if t.op == 'phi' else []
        return rs[0] if len(rs) == 1 and rs[0] in self.vars else None

    def opt(self, t, env):
        """position of the address the optional t holds, None when it holds none"""
        t = strip_mut(t)
        if t.op == 'some':
            return self.addr(payload(t), env)
        if t.op == 'agg' and t.a[0].endswith('None'):
            return None
        r = self.carried(t)
        if r is not None:
            if self.vars[r] == 'unset':
                raise Unknown(t)
            return self.vars[r]
        if t.op == 'getopt' and strip_mut(t.a[0]) is self.seq and rng(t.a[1]) is None:
            i = self.int(t.a[1], env)
            return i if 0 <= i < self.n else None
        if t.op == 'optmap':
            return None if self.opt(t.a[0], env) is None else self.addr(t.a[1], env)
        if t.op == 'call' and t.a[0].split('::')[-1] in ('last', 'first') and strip_mut(t.a[1][0]) is self.seq:
            return None if not self.n else 0 if t.a[0].endswith('first') else self.n - 1
        if t.op == 'phi':
            for g, v in t.a[0]:
                k = Sim([], lambda x: self.leaf(x, env)).guard(g)
                if k is None:
                    raise Unknown(t)
                if k:
                    return self.opt(v, env)
        raise Unknown(t)

    def leaf(self, t, env):
        try:
            if t.op == 'each':
                return True
            if supposed(t, self.world) is not None:
                return supposed(t, self.world)
            if t.op == 'is' and evidence_of(t.a[0]) is not None:
                return t.a[1] == 'Some'
            if t.op == 'is' and strip_mut(t.a[0]).op == 'call' and strip_mut(t.a[0]).a[0].split('::')[-1] in ('last', 'first', 'next'):
                return (t.a[1] == 'Some') == (self.size(strip_mut(t.a[0]).a[1][0]) > 0)
            if t.op == 'is' and t.a[1] in ('Some', 'None'):
                return (t.a[1] == 'Some') == (self.opt(t.a[0], env) is not None)
            return self.int(t, env) if t.op in ('len', 'call', 'idx', 'rangeidx') else None
        except Unknown:
            return None

    def walk(self, evs):
        """(event, turn) in the order they happen"""
        i = 0
        while i < len(evs):
            ss = seqs(evs[i].guard)
            if len(ss) > 1:
                raise Unknown(evs[i])
            j = i + 1
            while ss and j < len(evs) and len(seqs(evs[j].guard)) == 1 and strip_mut(seqs(evs[j].guard)[0]) is strip_mut(ss[0]):
                j += 1
            for env in self.turns(evs[i]):
                for e in evs[i:j]:
                    yield e, env
            i = j

    def turns(self, e):
        ss = seqs(e.guard)
        if not ss:
            return [{}]
        if len(ss) != 1:
            raise Unknown(e)
        n, st = self.size(ss[0]), self.start(ss[0])
        return [{'at': st + i, 'range': st + i} for i in range(n)]


def evidence_of(t):
    """key of the evidence t denotes"""
    t = strip_mut(t)
    for x in subterms(t):
        if x.op == 'call' and x.a[0].split('::')[-1] in ('entry', 'get_mut', 'get_or_insert', 'get') and len(x.a[1]) >= 2 and isf(x.a[1][0], 'running_evidence'):
            return x.a[1][1]
    return None


@prop('P04')
def traces(ctx):
    """a path counts one step per consecutive pair and one stop at its last node"""
    for meth, op in (('add_trace_to_pdfs', 'Categorical::add_child_pop'), ('remove_trace_from_pdfs', 'Categorical::remove_child_pop')):
        b = ctx.body(TRK, meth)
        fr = ctx.frame(b, DISTR)
        evs = ctx.events(b, DISTR)
        other = [e for e in evs if e.kind == 'call' and e.name in DISTR and e.name != op]
        ctx.ob('trace', meth + ' operation', not other, other[0] if other else b.name, 'the evidence is changed by ' + (other[0].name if other else ''))
        recs = {x for e in evs for t in list(e.args or ()) + [a for c in e.guard for a in c] for x in subterms(t) if x.op == 'rec'}
        seq0 = strip_mut(fr.args[1])
        part = lambda t: t.op == 'field' and mentions(t, lambda x: x is seq0) and not mentions(t, lambda x: x.op == 'rec' or x.op == 'field' and x.a[1] == 'running_evidence')
        for n, world in product((1, 2, 3, 5), worlds([e for e in evs if e.kind == 'set' or e.kind == 'call' and e.name == op], part)):
            T_ = Trace(strip_mut(fr.args[1]), n)
            got = {}
            nm = '%s of %d node%s' % (meth, n, 's' if n > 1 else '')
            try:
                todo = [e for e in evs if e.kind == 'call' and e.name == op or e.kind == 'set' and e.lval.op == 'var' and mk('rec', *e.lval.a[:2]) in recs]
                T_.world, T_.vars = world, {r: 'unset' for r in recs}
                for e, env in T_.walk(todo):
                    k = Sim(evs, lambda t: T_.leaf(t, env)).guard(e.guard)
                    if k is None:
                        raise Unknown(e)
                    if not k:
                        continue
                    if e.kind == 'set':
                        try:
                            T_.vars[mk('rec', *e.lval.a[:2])] = T_.opt(e.val, env)
                        except Unknown:
                            T_.vars[mk('rec', *e.lval.a[:2])] = 'unset'
                        continue
                    key = evidence_of(e.args[0])
                    if key is None:
                        raise Unknown(e.args[0])
                    key = T_.addr(key, env)
                    to = T_.opt(e.args[1], env)
                    to = 'stop' if to is None else to
                    v = floatval(strip_mut(e.args[2]))
                    if v is None:
                        raise Unknown(e.args[2])
                    got[(key, to)] = got.get((key, to), 0) + v
            except Unknown as u:
                ctx.tri('trace', nm, None, b.name, u)
                continue
            want = {(i, i + 1): 1.0 for i in range(n - 1)}
            want[(n - 1, 'stop')] = 1.0
            ctx.ob('trace', nm, got == want, b.name, 'counts %s instead of %s' % (got, want))


@prop('P04')
def window(ctx):
    """the evidence is that of the paths in the window"""
    b = ctx.body(TRK, 'add_path')
    op = (TRK + '::add_trace_to_pdfs', TRK + '::remove_trace_from_pdfs')
    evs = ctx.events(b, op)
    q = lambda t: selff(t, 'sequence_queue')
    path = lambda t: t.op in ('field', 'optmap', 'payload', 'index') and len_of(t) is None and mentions(t, lambda x: x.op == 'param' and x.a[0] == 1 or is_call(x, 'pop_front'))
    cells = ((0, 0, 3), (1, 0, 3), (1, 1, 3), (3, 0, 3), (3, 2, 3), (3, 3, 3), (3, 3, 1), (1, 0, 1))
    for (w, L, pl), world in product(cells, worlds([e for e in evs if e.kind == 'write' or e.kind == 'call' and (e.name in op or e.args and q(strip_mut(e.args[0])))], path)):
        st = {'len': L, 'read': None, 'added': 0, 'removed': 0, 'popped': 0, 'count': 7}

        def leaf(t):
            if supposed(t, world) is not None:
                return supposed(t, world)
            if selff(t, 'window_size'):
                return w
            if selff(t, 'sequence_count'):
                return st['count']
            if len_of(t) is not None and q(strip_mut(len_of(t))):
                return st['read'] if st['read'] is not None else st['len']
            if t.op in ('empty', 'nonempty') and q(strip_mut(t.a[0])):
                n = st['read'] if st['read'] is not None else st['len']
                return (n == 0) == (t.op == 'empty')
            if len_of(t) is not None and (is_call(len_of(t), 'pop_front') or is_param(len_of(t), 1)):
                return pl
            if t.op == 'is' and is_call(t.a[0], 'pop_front'):
                return (t.a[1] == 'Some') == (st['popped'] > 0)
            if t.op == 'each':
                return True
            return None
        sim = Sim(evs, leaf)
        nm = 'add_path window=%d held=%d nodes=%d' % (w, L, pl)
        bad = None
        try:
            for e in evs:
                m = e.name.split('::')[-1] if e.kind == 'call' else ''
                mine = e.kind == 'call' and e.args and q(strip_mut(e.args[0]))
                rel = mine or e.kind == 'call' and e.name in op or e.kind == 'write' and mentions(e.lval, lambda x: x.op == 'param' and x.a[0] == 0)
                if not rel:
                    continue
                k = sim.guard(e.guard)
                if k is None:
                    raise Unknown(e)
                if not k:
                    continue
                if mine:
                    if m in ('len', 'is_empty'):
                        st['read'] = st['len']
                    elif m == 'push_back':
                        st['len'] += 1
                        if not is_param(e.args[1], 1):
                            bad = 'another path is remembered'
                    elif m == 'pop_front':
                        if st['len']:
                            st['len'] -= 1
                            st['popped'] += 1
                    elif m in ('pop_back', 'clear'):
                        bad = 'the wrong path is dropped: ' + m
                    elif m in GROW + SHRINK:
                        raise Unknown(e)
                elif e.kind == 'call' and e.name == op[0]:
                    st['added'] += 1
                    if not is_param(e.args[1], 1):
                        bad = 'another path is counted'
                elif e.kind == 'call':
                    st['removed'] += 1
                    if not is_call(e.args[1], 'pop_front') and bad is None:
                        if is_param(e.args[1], 1):
                            bad = 'the new path is taken out'
                        else:
                            raise Unknown(e)
                elif selff(e.lval, 'sequence_count'):
                    st['count'] = sim.val(e.val)
                else:
                    raise Unknown(e)
        except Unknown as u:
            ctx.tri('window', nm, None, b.name, u)
            continue
        full = w and L == w
        want = {'len': 0 if not w else L if full else L + 1, 'added': 1, 'removed': 1 if full else 0, 'popped': 1 if full else 0, 'count': 8}
        got = {k: st[k] for k in want}
        ctx.ob('window', nm, bad is None and got == want, b.name, bad or 'leaves %s instead of %s' % (got, want))

    b = ctx.body(TRK, 'sequence_len')
    evs = ctx.events(b)
    for w, L, c in ((0, 0, 0), (0, 0, 7), (3, 0, 0), (3, 2, 2), (3, 3, 9)):
        def leaf(t):
            if selff(t, 'window_size'):
                return w
            if selff(t, 'sequence_count'):
                return c
            if len_of(t) is not None and q(strip_mut(len_of(t))):
                return L
            if t.op in ('empty', 'nonempty') and q(strip_mut(t.a[0])):
                return (L == 0) == (t.op == 'empty')
            return None
        try:
            v = Sim(evs, leaf).val(ctx.frame(b).ret())
        except Unknown as u:
            ctx.tri('length', 'sequence_len', None, b.name, u)
            continue
        ctx.ob('length', 'window=%d held=%d count=%d' % (w, L, c), v == (L if w else c), b.name, 'the length is %s' % v)

    b = ctx.body(TRK, 'new')
    r = ctx.frame(b).ret()
    for f, ok in (('window_size', lambda t: is_param(t, 0)), ('reader', lambda t: is_param(t, 1)), ('sequence_count', lambda t: intval(t) == 0), ('running_evidence', lambda t: strip_mut(t).op == 'new' or is_call(t, 'default')), ('sequence_queue', lambda t: strip_mut(t).op == 'new' or is_call(t, 'default'))):
        v = field_of(r, f)
        if v is None:
            ctx.undecided('new: ' + f)
        else:
            ctx.ob('new', f, ok(v), b.name, '%s is %s' % (f, short(v)))
    ctx.ob('reader', 'running_evidence', selff(ctx.frame(ctx.body(TRK, 'running_evidence')).ret(), 'running_evidence'), '', 'running_evidence returns something else')


@prop('P04')
def appended(ctx):
    b = ctx.body(TRK, 'append')
    evs = ctx.events(b, DISTR)
    fr = ctx.frame(b, DISTR)
    src = sem.field(fr.args[1], 'running_evidence')
    k, v = sem.field(sem.elem(src), '0'), sem.field(sem.elem(src), '1')

    def is_v(t):
        t = strip_mut(t)
        if t is v:
            return True
        if t.op == 'agg' and t.a[0].endswith('Categorical'):
            return all(strip_mut(x) is sem.field(v, n) for n, x in t.a[1])
        return False
    found = missing = 0
    unk = None
    for e in evs:
        if e.kind != 'call':
            continue
        m = e.name.split('::')[-1]
        if not (e.name in DISTR or m in ('or_insert_with', 'or_insert', 'insert') and e.args and (isf(e.args[0], 'running_evidence') or evidence_of(e.args[0]) is not None)):
            continue
        g = [a for c in e.guard for a in c if not loopish(a)]
        key = evidence_of(e.args[0])
        if m == 'insert' and isf(e.args[0], 'running_evidence'):
            key = e.args[1]
        loop = any(strip_mut(s) is src for s in seqs(e.guard)) and len(seqs(e.guard)) == 1
        if key is None or strip_mut(key) is not k or not loop or any(not (a.op == 'is' and (evidence_of(a.a[0]) is not None or is_call(a.a[0], 'get_mut', 'entry'))) for a in g):
            unk = e
            continue
        if e.name == 'Categorical::merge' and is_v(e.args[1]):
            dflt = mentions_deep(e.args[0], lambda x: is_call(x, 'or_default', 'or_insert_with', 'or_insert'))
            found += 1
            missing += dflt
        elif m == 'or_insert_with':
            # the value the closure gives
            r = closure_value(fr, e)
            if r is None:
                unk = e
            elif is_v(r):
                missing += 1
            elif not any(x.kind == 'call' and x.name == 'Categorical::merge' and mentions_deep(x.args[0], lambda y: is_call(y, 'or_insert_with')) for x in evs):
                unk = e
        elif m in ('or_insert', 'insert') and is_v(e.args[-1]):
            missing += 1
            if m == 'insert' and not g:
                found = -9
        else:
            unk = e
    ok = None if unk is not None and (found, missing) != (1, 1) else (found, missing) == (1, 1)
    ctx.tri('append', 'evidence', ok, b.name, 'the evidence of the other tracker is merged %d times into known nodes and taken over %d times for new ones' % (found, missing))
    qs = [e for e in evs if e.kind == 'call' and e.args and isf(e.args[0], 'sequence_queue') and is_param(strip(e.args[0]).a[0], 0) and e.name.split('::')[-1] in GROW + SHRINK]
    ok = None
    if len(qs) == 1:
        e = qs[0]
        oq = sem.field(fr.args[1], 'sequence_queue')
        m = e.name.split('::')[-1]
        ok = m == 'extend' and seqbase(strip_mut(e.args[1])) is oq and e.guard == TRUE or m == 'push_back' and strip_mut(e.args[1]) is sem.elem(oq)
        if not ok:
            ok = False if m == 'push_front' and mentions(e.args[1], lambda x: x is oq) and not mentions(e.guard, lambda x: x.op == 'rev') else None if m not in ('extend', 'push_back') else False if not mentions(e.args[1], lambda x: x is oq) else None
    elif not qs:
        ok = False
    ctx.tri('append', 'paths', ok, qs[0] if qs else b.name, 'the paths of the other tracker are not taken over')
    ws = [e for e in evs if e.kind == 'write' and strip(e.lval).op == 'field' and strip(e.lval).a[1] == 'sequence_count']
    ok = None
    if len(ws) == 1 and strip_noise(ws[0].guard) == TRUE:
        A = Alg(evs)
        ok = A.eq(ws[0].val, A.add(A.poly(sem.field(fr.args[0], 'sequence_count')), A.poly(sem.field(fr.args[1], 'sequence_count'))))
    elif not ws:
        r = field_of(fr.ret(), 'sequence_count')
        ok = False if strip_mut(fr.ret()) is strip_mut(fr.args[0]) else None
    ctx.tri('append', 'count', ok, ws[0] if ws else b.name, 'the lengths are not added')


def closure_value(fr, e):
    for f in frames_of(fr):
        for x, subs in f.local_events():
            if x.kind == 'call' and x.chain[-1] == e.chain[-1] and subs:
                return subs[-1][0].ret()
    return None


@prop('P04')
def reports(ctx):
    lookup = lambda t, key: mentions(t, lambda x: x.op == 'call' and x.a[0] == 'node' and strip_mut(x.a[1][1]) is key and isf(x.a[1][0], 'reader', 'layers'))
    b = ctx.body(TRK, 'prob_vector')
    evs = ctx.events(b, TREE + DISTR)
    fr = ctx.frame(b, TREE + DISTR)
    na = strip_mut(fr.args[1])
    es = calls(evs, 'Dirichlet::add_evidence')
    ok = None
    for e in es:
        x = strip_mut(e.args[1])
        key = evidence_of(x)
        g = [a for c in e.guard for a in c if not loopish(a) and not (a.op == 'is' and a.a[1] == 'Some')]
        ok = key is not None and strip_mut(key) is na and lookup(e.args[0], na) if not g else None
    ctx.tri('posterior', 'prob_vector evidence', ok if es else False, es[0] if es else b.name, 'the probabilities ignore the evidence of the node')
    es = calls(evs, 'Dirichlet::prob_vector')
    ctx.tri('posterior', 'prob_vector', None if not es else all(lookup(e.args[0], na) for e in es), es[0] if es else b.name, 'the probabilities are those of another node')
    b = ctx.body(TRK, 'evidence_prob_vector')
    fr = ctx.frame(b, DISTR)
    r = [strip(v) for v in variants(fr.ret()) if strip(v).op == 'call']
    ok = None
    if len(r) == 1 and is_call(r[0], 'Categorical::prob_vector'):
        key = evidence_of(r[0].a[1][0])
        ok = key is not None and strip_mut(key) is strip_mut(fr.args[1])
    ctx.tri('posterior', 'evidence_prob_vector', ok, b.name, 'the evidence is that of another node')

    b = ctx.body(TRK, 'all_node_kl')
    evs = ctx.events(b, TREE + DISTR)
    fr = ctx.frame(b, TREE + DISTR)
    r = resolve_seq(fr.ret(), evs)
    ev = sem.field(fr.args[0], 'running_evidence')
    key, cat = sem.field(sem.elem(ev), '0'), sem.field(sem.elem(ev), '1')
    if r is None or r.op != 'mapped':
        ctx.undecided('all_node_kl: ' + short(r))
    else:
        s = strip_mut(r.a[0])
        ok = True
        while s is not ev:
            if s.op == 'filtered':
                c = s.a[1]
                at = atoms_of(c.a[0]) if c.op == 'cond' else {c} if c.op == 'bin' else None
                if at is None or any(not (a.op in ('each', 'try') or a.op == 'is' and a.a[1] == 'Some' and lookup(a.a[0], key)) for a in at):
                    ok = False if at is not None and all(a.op in ('each', 'try', 'is', 'bin', 'empty', 'nonempty') or a.op in ('bool', 'not') and mentions(a, lambda x: is_call(x, 'posterior_kl_divergence')) for a in at) else None
                s = strip_mut(s.a[0])
            elif s.op in ('rev', 'sorted'):
                s = strip_mut(s.a[0])
            else:
                ok = None
                break
        ctx.tri('per-node', 'every touched node', ok, b.name, 'some nodes with evidence are left out: ' + short(r.a[0]))
        x = r.a[1]
        kl = strip(sem.field(x, '0'))
        ok = None
        if is_call(kl, 'Dirichlet::posterior_kl_divergence'):
            ok = lookup(kl.a[1][0], key) and strip_mut(kl.a[1][1]) is cat and strip_mut(sem.field(x, '1')) is key
        ctx.tri('per-node', 'divergence', ok, b.name, 'an entry pairs ' + short(x))

    b = ctx.body(TRK, 'kl_div_stats')
    op = (TRK + '::all_node_kl',)
    evs = ctx.events(b, op)
    fr = ctx.frame(b, op)
    seq = [s for e in evs for s in seqs(e.guard)]
    kls = lambda t: t.op == 'field' and t.a[1] == '0' and t.a[0].op == 'elem' and is_call(seqbase(t.a[0].a[0]) or t, 'all_node_kl')
    vars_ = {}
    inits = {'max': float('-inf'), 'min': float('inf'), 'nz_count': 0, 'moment1_nz': 0, 'moment2_nz': 0}
    for f in inits:
        v = field_of(fr.ret(), f)
        v = strip_mut(v) if v is not None else None
        if v is None or v.op != 'phi' or len(v.a[0]) != 2 or not any(x.op == 'rec' for _, x in v.a[0]):
            ctx.undecided('kl_div_stats %s: %s' % (f, short(v)))
            return
        rec = [x for _, x in v.a[0] if x.op == 'rec'][0]
        ini = [x for _, x in v.a[0] if x.op != 'rec'][0]
        vars_[rec] = f
        try:
            ctx.ob('stats', 'start of ' + f, Model(lambda t: None).val(ini) == inits[f], b.name, '%s starts at %s' % (f, short(ini)))
        except Unknown:
            ctx.undecided('kl_div_stats start ' + short(ini))
    for kl, (mx, mn) in product((0.0, 1e-10, 1e-9, 2.0, 4.0, 6.0), ((3.0, 3.0), (5.0, 1.0), (float('-inf'), float('inf')))):
        n0 = 10 if mx > 0 else 0
        acc = {'max': mx, 'min': mn, 'nz_count': n0, 'moment1_nz': 10.0 * n0, 'moment2_nz': 100.0 * n0}

        def read(t, st):
            if kls(t):
                return kl
            if t.op == 'each' and is_call(seqbase(t.a[0]) or t.a[0], 'all_node_kl'):
                return True
            if t.op == 'phi' and any(x in vars_ for _, x in t.a[0]):
                return st[[vars_[x] for _, x in t.a[0] if x in vars_][0]]
            if t in vars_:
                return st[vars_[t]]
            if t.op == 'bin' and t.a[0] in ('Max', 'Min'):
                return None
            return None

        def effect(e, sim, st):
            if e.kind == 'set' and is_loop_guard(e.guard):
                r_ = mk('rec', e.lval.a[0], e.lval.a[1])
                if r_ in vars_:
                    st[vars_[r_]] = fval(sim, e.val)
                    return True
            return False
        nm = 'kl=%g max=%g min=%g' % (kl, mx, mn)
        want = dict(acc)
        if kl > 1e-10:
            want = {'max': max(mx, kl), 'min': min(mn, kl), 'nz_count': n0 + 1, 'moment1_nz': 10.0 * n0 + kl, 'moment2_nz': 100.0 * n0 + kl * kl}
        try:
            outs = post_states(evs, acc, read, effect)
        except Unknown as u:
            ctx.tri('stats', nm, None, b.name, u)
            continue
        ctx.tri('stats', nm, agree(outs[:1], lambda o: all(near(float(o[f]), float(want[f])) for f in want)), b.name, 'gives %s instead of %s' % (outs[0], want))
    v = field_of(fr.ret(), 'sequence_len')
    evl = ctx.frame(b, op + (TRK + '::sequence_len',)).ret()
    v = field_of(evl, 'sequence_len')
    ctx.tri('stats', 'length', is_call(v, 'sequence_len') if v is not None else None, b.name, 'the length reported is ' + short(v))


def fval(sim, t):
    t = strip_mut(t)
    if t.op == 'call' and t.a[0].split('::')[-1] in ('max', 'min') and len(t.a[1]) == 2:
        f = max if t.a[0].endswith('max') else min
        return f(sim.val(t.a[1][0]), sim.val(t.a[1][1]))
    return sim.val(t)


# ---- P05 -------------------------------------------------------------------------

def moment_state(evs, fr, reads, init, leaf, fields=('moment1', 'moment2')):
    """state {moment1, moment2, count} after the call, per coordinate"""
    def read(t, st):
        for f in fields:
            if is_elem(t, lambda s, f=f: selff(s, f)):
                return st[f]
        if selff(t, 'count'):
            return st['count']
        return leaf(t)

    def effect(e, sim, st):
        if e.kind == 'write':
            for f in fields:
                if is_elem(e.lval, lambda s, f=f: selff(s, f)):
                    st[f] = sim.val(e.val)
                    return True
            if selff(e.lval, 'count'):
                st['count'] = sim.val(e.val)
                return True
            if mentions(e.lval, lambda x: x.op == 'param' and x.a[0] == 0):
                raise Unknown(e.lval)
        elif e.kind == 'call' and e.args and isf(e.args[0], *fields[:1]) and e.name.split('::')[-1] in GROW + SHRINK:
            raise Unknown(e)
        return False
    return post_states(evs, init, read, effect)


def coords(t):
    """t is the sequence of coordinates of the point argument"""
    return is_call(t, 'dense_iter', 'dense') and is_param(strip(t).a[1][0], 1)


@prop('P05')
def moments(ctx):
    for meth in ('add_point', 'remove_point', 'merge'):
        b = ctx.body('DiagGaussian', meth)
        fr, evs = ctx.frame(b), ctx.events(b)
        for n in (0, 1, 6):
            def leaf(t):
                if t.op == 'each':
                    x = strip_mut(t.a[0])
                    if coords(x) or selff(x, 'moment1') or selff(x, 'moment2') or x.op == 'field' and is_param(x.a[0], 1):
                        return True
                if is_elem(t, coords):
                    return 3.0
                for f, v in (('moment1', 20.0), ('moment2', 300.0)):
                    if is_elem(t, lambda s: isf(s, f) and is_param(strip(s).a[0], 1)):
                        return v
                if t.op == 'field' and t.a[1] == 'count' and is_param(t.a[0], 1):
                    return 4
                k = len_of(t)
                if k is not None and isf(k, 'moment1') or k is not None and isf(k, 'moment2') or is_call(t, 'dim'):
                    return 8
                return None
            init = {'moment1': 50.0, 'moment2': 700.0, 'count': n}
            if meth == 'add_point':
                want = {'moment1': 53.0, 'moment2': 709.0, 'count': n + 1}
            elif meth == 'merge':
                want = {'moment1': 70.0, 'moment2': 1000.0, 'count': n + 4}
            else:
                want = {'moment1': 47.0, 'moment2': 691.0, 'count': n - 1} if n else init
            nm = '%s count=%d' % (meth, n)
            try:
                outs = moment_state(evs, fr, None, init, leaf)
            except Unknown as u:
                ctx.tri('moments', nm, None, b.name, u)
                continue
            ctx.tri('moments', nm, agree(outs, lambda o: o == want), b.name, 'leaves %s instead of %s per coordinate' % (outs[0], want))
    for meth in ('mean', 'var'):
        b = ctx.body('DiagGaussian', meth)
        evs = ctx.events(b)
        fr = ctx.frame(b)
        for n in (0, 1, 4):
            def leaf(t):
                if t.op == 'each':
                    return True
                if is_elem(t, lambda s: selff(s, 'moment1')):
                    return 10.0
                if is_elem(t, lambda s: selff(s, 'moment2')):
                    return 90.0
                if selff(t, 'count'):
                    return n
                return None
            sim = Sim(evs, leaf)
            want = 0.0 if not n else 10.0 / n if meth == 'mean' else 90.0 / n - 100.0 / n / n
            r = picked(sim, fr.ret())
            r = resolve_seq(r, evs) if r is not None else None
            nm = '%s count=%d' % (meth, n)
            try:
                if r is not None and is_call(r, 'from_elem'):
                    v, k = sim.val(r.a[1][0]), len_of(strip_mut(r.a[1][1]))
                    full = k is not None and (selff(k, 'moment1') or selff(k, 'moment2'))
                    for e in sim.fired([e for e in evs if e.kind == 'write' and mentions(e.lval, lambda x: x is strip_mut(r))]):
                        if not is_elem(e.lval, lambda s: strip_mut(s) is strip_mut(r)):
                            raise Unknown(e)
                        v = sim.val(e.val)
                elif r is not None and r.op == 'mapped':
                    v, full = sim.val(r.a[1]), sim._runs(r.a[0])
                else:
                    raise Unknown(r or fr.ret())
            except Unknown as u:
                ctx.tri('statistics', nm, None, b.name, u)
                continue
            ctx.ob('statistics', nm, near(float(v), want) and full, b.name, 'the %s of a coordinate is %s instead of %s' % (meth, v, want))
    b = ctx.body('DiagGaussian', 'new')
    r = ctx.frame(b).ret()
    for f in ('moment1', 'moment2', 'count'):
        v = field_of(r, f)
        ok = v is not None and (intval(v) == 0 if f == 'count' else None if not is_call(v, 'from_elem') else floatval(strip_mut(v.a[1][0])) == 0.0 and is_param(v.a[1][1], 0))
        ctx.tri('empty', f, ok, b.name, '%s starts as %s' % (f, short(v)))


@prop('P05')
def cloud_moments(ctx):
    """the moments of a set of points are sums over every one of them"""
    for meth, inc in (('moment_1', 3.0), ('moment_2', 9.0)):
        b = ctx.body('PointCloud', meth)
        fr, evs = ctx.frame(b), ctx.events(b)
        idx = strip_mut(fr.args[1])
        r = [strip_mut(v) for g, v in alts(strip_mut(fr.ret())) if strip_mut(v).op == 'ok']
        if len(r) != 1:
            ctx.undecided(meth + ': ' + short(fr.ret()))
            continue
        acc = strip_mut(r[0].a[0])
        pt = lambda t: is_call(t, '::point', 'PointCloud::point') and is_param(strip(t).a[1][0], 0) and strip_mut(strip(t).a[1][1]) is sem.elem(idx)
        cs = lambda t: is_call(t, 'dense_iter', 'dense') and pt(strip(t).a[1][0])

        def leaf(t):
            if t.op == 'each':
                x = strip_mut(t.a[0])
                if x is idx or cs(x) or x is acc:
                    return True
            if is_elem(t, cs):
                return 3.0
            if is_elem(t, lambda s: s is acc):
                return 50.0
            if t.op == 'is' and pt(t.a[0]):
                return t.a[1] == 'Ok'
            return None
        sim = Sim(evs, leaf)
        try:
            fired = sim.fired([e for e in evs if e.kind == 'write'])
            vals = [sim.val(e.val) for e in fired if is_elem(e.lval, lambda s: s is acc)]
            if len(vals) != len(fired) or not vals:
                raise Unknown(fr.ret())
        except Unknown as u:
            ctx.tri('sums', meth, None, b.name, u)
            continue
        ctx.ob('sums', meth, vals == [50.0 + inc], b.name, 'a coordinate %s adds %s' % (3.0, [v - 50.0 for v in vals]))
        ok = is_call(acc, 'from_elem') and (floatval(strip_mut(acc.a[1][0])) == 0.0 or is_call(acc.a[1][0], 'default')) and is_call(acc.a[1][1], 'dim')
        ctx.tri('sums', meth + ' start', True if ok else None, b.name, 'starts from ' + short(acc))
        er = [strip_mut(v) for g, v in alts(strip_mut(fr.ret())) if strip_mut(v).op != 'ok']
        ctx.tri('sums', meth + ' error', True if er and all(mentions_deep(x, lambda y: is_call(y, 'point')) for x in er) else None if er else False, b.name, 'a point that cannot be read is skipped')
