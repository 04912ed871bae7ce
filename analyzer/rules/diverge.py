"""P06: densities and divergences are the formulas they are named after."""
import math
from itertools import product
from rules import prop
from rules.paths import seqs
from rulelib import *
import sem


def digamma(x):
    r = 0.0
    while x < 12:
        r -= 1.0 / x
        x += 1.0
    f = 1.0 / (x * x)
    return r + math.log(x) - 0.5 / x - f * (1 / 12. - f * (1 / 120. - f * (1 / 252. - f * (1 / 240. - f / 132.))))


FUN = {'ln_gamma': math.lgamma, 'digamma': digamma, 'sqrt': math.sqrt, 'exp': math.exp, 'recip': lambda x: 1 / x, 'ln_1p': math.log1p, 'gamma': math.gamma, 'log2': math.log2, 'log10': math.log10}


class Flow(Model):
    """the value of a closed form over sequences of known elements: folds and loop-carried variables are
    unrolled, everything else is the term itself.  base(seq) -> list of elements or None"""

    def __init__(self, evs, base, extra=lambda t, f: None):
        Model.__init__(self, self._leaf)
        self.evs, self.base, self.extra = evs, base, extra
        self.turn, self.vars, self.fold = None, {}, {}

    def idxs(self, s):
        """the positions a walk over s visits"""
        s = strip_mut(s)
        b = self.base(s)
        if b is not None:
            return list(range(len(b)))
        if s.op in ('mapped', 'enumerate'):
            return self.idxs(s.a[0])
        if s.op == 'zip':
            a, b = self.idxs(s.a[0]), self.idxs(s.a[1])
            if a[:len(b)] != b[:len(a)]:
                raise Unknown(s)
            return a[:len(b)]
        if s.op == 'filtered':
            out, old = [], self.turn
            try:
                for i in self.idxs(s.a[0]):
                    self.turn = i
                    c = s.a[1]
                    k = self.guard(c.a[0]) if c.op == 'cond' else bool(self.val(c))
                    if k is None:
                        raise Unknown(s)
                    if k:
                        out.append(i)
            finally:
                self.turn = old
            return out
        if s.op == 'taken':
            n = self.val(s.a[2])
            r = self.idxs(s.a[0])
            if s.a[1] == 'take':
                return r[:n]
            raise Unknown(s)
        r = rng(s)
        if r is not None and r[0] == 'Range':
            return list(range(self.val(r[1]), self.val(r[2])))
        raise Unknown(s)

    def item(self, t):
        t = strip_mut(t)
        if t.op == 'elem' and self.turn is not None:
            b = self.base(strip_mut(t.a[0]))
            if b is not None and 0 <= self.turn < len(b):
                return b[self.turn]
        if t.op == 'index' or t.op == 'payload' and strip_mut(t.a[0]).op == 'getopt':
            x = t if t.op == 'index' else strip_mut(t.a[0])
            b = self.base(strip_mut(x.a[0]))
            if b is not None and rng(x.a[1]) is None:
                i = self.val(x.a[1])
                if isinstance(i, int) and 0 <= i < len(b):
                    return b[i]
        return None

    def _leaf(self, t):
        v = self.extra(t, self)
        if v is not None:
            return v
        if t.op in ('idx', 'rangeidx') and self.turn is not None:
            return self.turn
        if t.op == 'field' and t.a[1] in ('0', '1'):
            if t in self.fold:
                return self.fold[t]
            x = self.item(t.a[0])
            if isinstance(x, tuple):
                return x[int(t.a[1])]
        x = self.item(t)
        if x is not None and not isinstance(x, tuple):
            return x
        if t in self.fold:
            return self.fold[t]
        if len_of(t) is not None:
            b = self.base(strip_mut(len_of(t)))
            if b is not None:
                return len(b)
        if t.op in ('empty', 'nonempty'):
            b = self.base(strip_mut(t.a[0]))
            if b is not None:
                return (not b) == (t.op == 'empty')
        if t.op == 'rec' and t in self.vars:
            return self.vars[t]
        if t.op == 'phi':
            rs = [x for _, x in t.a[0] if x.op == 'rec']
            if len(rs) == 1 and rs[0] in self.vars:
                return self.vars[rs[0]]
            if len(rs) == 1 and len(t.a[0]) == 2 and not str(rs[0].a[1]).startswith('fold'):
                return self.val([x for _, x in t.a[0] if x.op != 'rec'][0])
            f = [(g, x) for g, x in t.a[0] if any(y.op == 'rec' and str(y.a[1]).startswith('fold') for y in subterms(x))]
            if len(f) == 1 and len(t.a[0]) == 2:
                return self.folded(t, f[0])
        if t.op == 'const' and t.a[0].split('::')[-1] in ('PI', 'LN_2', 'E', 'TAU'):
            return {'PI': math.pi, 'LN_2': math.log(2), 'E': math.e, 'TAU': 2 * math.pi}[t.a[0].split('::')[-1]]
        if t.op == 'const' and t.a[0].split('::')[-1] in ('EPSILON',):
            return 2.0 ** -52
        if t.op == 'call':
            m = t.a[0].split('::')[-1]
            if m.startswith('binary_search'):
                b = self.base(strip_mut(t.a[1][0]))
                if b is not None:
                    k = self.val(t.a[1][1])
                    hit = [i for i, e in enumerate(b) if e[0] == k]
                    return ('Some', hit[0]) if hit else 'None'
            if m == 'ln' and len(t.a[1]) == 1:
                v = self.val(t.a[1][0])
                return math.log(v) if v > 0 else float('-inf')
            if m in FUN and len(t.a[1]) == 1:
                try:
                    return FUN[m](self.val(t.a[1][0]))
                except (ValueError, ZeroDivisionError, OverflowError):
                    raise Unknown(t)
            if m in ('max', 'min') and len(t.a[1]) == 2:
                return (max if m == 'max' else min)(self.val(t.a[1][0]), self.val(t.a[1][1]))
            if m == 'mul_add' and len(t.a[1]) == 3:
                a, b, c = (self.val(x) for x in t.a[1])
                return a * b + c
            if m == 'len' and len(t.a[1]) == 1:
                b = self.base(strip_mut(t.a[1][0]))
                return None if b is None else len(b)
        return None

    def folded(self, t, step):
        g, f = step
        rec = {y for y in subterms(f) if y.op == 'rec' and str(y.a[1]).startswith('fold')}
        own = {y for y in subterms(f) if y.op == 'field' and y.a[0] in rec} or rec
        if len(rec) != 1 or len(own) != 1:
            raise Unknown(t)
        acc = self.val([x for gg, x in t.a[0] if x is not f][0])
        ss = seqs(g)
        if not ss:
            ss = {strip_mut(x.a[0]) for x in subterms(f) if x.op == 'elem'}
        ids = None
        for s in ss:
            k = self.idxs(s)
            ids = k if ids is None or len(k) < len(ids) else ids
        if ids is None:
            raise Unknown(t)
        r, old = own.pop(), self.turn
        keep = self.fold
        try:
            for i in ids:
                self.turn = i
                self.fold = dict(keep)
                self.fold[r] = acc
                acc = self.val(f)
        finally:
            self.turn, self.fold = old, keep
        return acc

    def run(self, ret):
        """the value returned"""
        recs = {x for t in [ret] + [e.val for e in self.evs if e.kind == 'set'] + [a for e in self.evs for c in e.guard for a in c] for x in subterms(t) if x.op == 'rec' and not str(x.a[1]).startswith('fold')}
        todo = [e for e in self.evs if e.kind == 'set' and e.lval.op == 'var' and mk('rec', *e.lval.a[:2]) in recs]
        rets = [(g, v) for g, v in alts(strip_mut(ret))]
        inside = [(g, v) for g, v in rets if seqs(g)]
        i = 0
        looped = set()
        while i < len(todo) or inside and not looped:
            ss = [strip_mut(s) for s in seqs(todo[i].guard)] if i < len(todo) else list({strip_mut(s) for g, _ in inside for s in seqs(g)})
            if len(ss) > 1:
                raise Unknown(todo[i] if i < len(todo) else ret)
            if not ss:
                self.step(todo[i])
                i += 1
                continue
            j = i
            while j < len(todo) and [strip_mut(s) for s in seqs(todo[j].guard)] == ss:
                j += 1
            for k in self.idxs(ss[0]):
                self.turn = k
                for g, v in inside:
                    if [strip_mut(s) for s in seqs(g)] == ss:
                        r = self.guard(g)
                        if r is None:
                            raise Unknown(v)
                        if r:
                            return self.val(v)
                new = {}
                for e in todo[i:j]:
                    self.step(e, new)
                self.vars.update(new)
            self.turn = None
            looped.add(ss[0])
            i = max(j, i + 1) if j > i or i < len(todo) else i
            if i >= len(todo):
                break
        out = [(g, v) for g, v in rets if not seqs(g)]
        for g, v in early(out):
            r = self.guard(g)
            if r is None:
                raise Unknown(v)
            if r:
                return self.val(v)
        raise Unknown(ret)

    def step(self, e, into=None):
        k = self.guard(e.guard)
        if k is None:
            raise Unknown(e)
        if k:
            (self.vars if into is None else into)[mk('rec', *e.lval.a[:2])] = self.val(e.val)


def close(a, b):
    if a is None or b is None:
        return a is b
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return abs(a - b) <= 1e-6 * (1 + abs(b))


def counts(me, other):
    """number leaves of two distributions of counts: (children, singletons)"""
    def base(s):
        if isf(s, 'child_counts'):
            r = strip(s).a[0]
            return list(me[0]) if is_param(r, 0) else list(other[0]) if is_param(r, 1) else None
        return None

    def extra(t, f):
        if t.op == 'field' and t.a[1] == 'singleton_count':
            return me[1] if is_param(t.a[0], 0) else other[1] if is_param(t.a[0], 1) else None
        return None
    return base, extra


def lng(xs):
    return sum(math.lgamma(x) for x in xs)


def kl_dirichlet(a, b):
    a0, b0 = sum(a), sum(b)
    return math.lgamma(a0) - lng(a) - math.lgamma(b0) + lng(b) + sum((x - y) * (digamma(x) - digamma(a0)) for x, y in zip(a, b))


def check(ctx, rule, b, cells, op=()):
    evs, ret = ctx.events(b, op), ctx.frame(b, op).ret()
    for nm, base, extra, want in cells:
        try:
            v = Flow(evs, base, extra).run(ret)
            if isinstance(v, tuple) and v[0] == 'Some':
                v = v[1]
            if isinstance(v, bool) or not (v is None or isinstance(v, (int, float))):
                raise Unknown(ret)
        except Unknown as u:
            ctx.tri(rule, nm, None, b.name, u)
            continue
        ctx.ob(rule, nm, close(v, want), b.name, 'gives %s instead of %s' % (v, want))


A = ((7, 3.0), (9, 5.0), (12, 2.5))


@prop('P06')
def categorical(ctx):
    cells = []
    for (ca, s), (cb, r) in product((((3.0, 5.0, 2.5), 4.0), ((1.0, 1.0, 1.0), 1.0), ((0.5, 6.0, 2.0), 0.0)), (((2.0, 1.5, 4.0), 3.0), ((9.0, 0.25, 1.0), 0.5), ((3.0, 5.0, 2.5), 4.0), ((1.0, 2.0, 4.0), 0.0))):
        if s and not r:
            continue
        me, ot = [x for x in ca] + ([s] if s else []), [x for x in cb] + ([r] if s else [])
        m, o = sum(ca) + s, sum(cb) + r
        base, extra = counts((tuple(zip((7, 9, 12), ca)), s), (tuple(zip((7, 9, 12), cb)), r))
        cells.append(('Categorical::kl_divergence of %s+%g and %s+%g' % (list(ca), s, list(cb), r), base, extra, sum(x / m * math.log((x / m) / (y / o)) for x, y in zip(me, ot))))
    for me, ot in ((((), 0.0), (A, 4.0)), ((A, 4.0), ((), 0.0)), (((), 0.0), ((), 0.0))):
        base, extra = counts(me, ot)
        cells.append(('Categorical::kl_divergence of totals %g and %g' % (sum(x for _, x in me[0]) + me[1], sum(x for _, x in ot[0]) + ot[1]), base, extra, None))
    check(ctx, 'divergence', ctx.body('Categorical', 'kl_divergence'), cells)


@prop('P06')
def dirichlet(ctx):
    cells = []
    for (ca, s), (cb, r) in product((((3.0, 5.0, 2.5), 4.0), ((1.0, 1.0, 1.0), 1.0), ((0.5, 6.0, 2.0), 0.75)), (((2.0, 1.5, 4.0), 3.0), ((9.0, 0.25, 1.0), 0.5), ((3.0, 5.0, 2.5), 4.0))):
        base, extra = counts((tuple(zip((7, 9, 12), ca)), s), (tuple(zip((7, 9, 12), cb)), r))
        cells.append(('Dirichlet::kl_divergence of %s+%g and %s+%g' % (list(ca), s, list(cb), r), base, extra, max(0.0, kl_dirichlet(list(ca) + [s], list(cb) + [r]))))
    check(ctx, 'divergence', ctx.body('Dirichlet', 'kl_divergence'), cells)
    cells = []
    for ev, r in (((), 2.0), (((9, 4.0),), 0.0), (((7, 1.0), (12, 6.0)), 3.0), (((7, 1.0), (9, 2.0), (12, 3.0)), 4.0), ((), 0.0)):
        for s in (4.0, 1.0) + ((0.0,) if not r else ()):
            base, extra = counts((A, s), (ev, r))
            add = dict(ev)
            prior = [c for _, c in A] + ([s] if s else [])
            post = [c + add.get(k, 0.0) for k, c in A] + ([s + r] if s else [])
            cells.append(('Dirichlet::posterior_kl_divergence of %s+%g' % (list(ev), r) + ' prior singletons %g' % s, base, extra, max(0.0, kl_dirichlet(prior, post))))
    for ev in (((8, 1.0),), ((7, 1.0), (13, 2.0))):
        base, extra = counts((A, 4.0), (ev, 1.0))
        cells.append(('Dirichlet::posterior_kl_divergence of unknown %s' % list(ev), base, extra, None))
    check(ctx, 'divergence', ctx.body('Dirichlet', 'posterior_kl_divergence'), cells)


def gauss(me, other, pt=None):
    """(moment1, moment2, count) of self and of the other, or the coordinates of the point"""
    def base(s):
        for k, f in enumerate(('moment1', 'moment2')):
            if isf(s, f):
                r = strip(s).a[0]
                return list(me[k]) if is_param(r, 0) else list(other[k]) if other is not None and is_param(r, 1) else None
        if pt is not None and is_call(s, 'dense_iter', 'dense') and is_param(strip(s).a[1][0], 1):
            return list(pt)
        return None

    def extra(t, f):
        if t.op == 'field' and t.a[1] == 'count':
            return float(me[2]) if is_param(t.a[0], 0) else float(other[2]) if other is not None and is_param(t.a[0], 1) else None
        return None
    return base, extra


def moments_of(mean, var, n):
    return [m * n for m in mean], [(v + m * m) * n for m, v in zip(mean, var)], n


@prop('P06')
def gaussian(ctx):
    G = (((1.0, -2.0, 0.5), (2.0, 0.5, 1.0), 4), ((0.0, 0.0, 0.0), (1.0, 1.0, 1.0), 1), ((3.0, 3.0, -1.0), (0.25, 9.0, 2.0), 10), ((2.0,), (3.0,), 2))
    cells = []
    for g in G:
        for pt in ((0.0, 0.0, 0.0), (1.0, -2.0, 0.5), (-3.0, 4.0, 2.5)):
            pt = pt[:len(g[0])]
            base, extra = gauss(moments_of(*g), None, pt)
            want = -0.5 * (sum((x - m) ** 2 / v + math.log(v) for x, m, v in zip(pt, g[0], g[1])) + len(pt) * math.log(2 * math.pi))
            cells.append(('DiagGaussian::ln_pdf mean %s variance %s at %s' % (list(g[0]), list(g[1]), list(pt)), base, extra, want))
    check(ctx, 'density', ctx.body('DiagGaussian', 'ln_pdf'), cells)
    cells = []
    for g, h in product(G, G):
        if len(g[0]) != len(h[0]):
            continue
        base, extra = gauss(moments_of(*g), moments_of(*h))
        want = 0.5 * sum(v / w + (n - m) ** 2 / w - 1 + math.log(w / v) for m, v, n, w in zip(g[0], g[1], h[0], h[1]))
        cells.append(('DiagGaussian::kl_divergence of %s %s and %s %s' % (list(g[0]), list(g[1]), list(h[0]), list(h[1])), base, extra, want))
    check(ctx, 'divergence', ctx.body('DiagGaussian', 'kl_divergence'), cells)


@prop('P06')
def sampled(ctx):
    """a drawn coordinate is mean + standard deviation * normal draw"""
    b = ctx.body('DiagGaussian', 'sample')
    evs, r = ctx.events(b), strip_mut(ctx.frame(b).ret())
    if r.op == 'new':
        r = collected(evs).get(r, r)
    normal = lambda t: any(is_call(x, 'sample_iter', 'sample', 'gen') for x in subterms(t) if x.op == 'call')
    for mean, var, z in product((0.0, 3.0, -2.0), (1.0, 4.0, 0.25), (0.0, 1.0, -1.5)):
        base, extra = gauss(moments_of((mean,), (var,), 5), None)

        def draw(t, f):
            if t.op == 'elem' and normal(t.a[0]) and not mentions(t.a[0], lambda x: isf(x, 'moment1', 'moment2')) or t.op == 'call' and is_call(t, 'sample', 'gen'):
                return z
            return extra(t, f)
        nm = 'DiagGaussian::sample mean %g variance %g draw %g' % (mean, var, z)
        try:
            if r.op != 'mapped':
                raise Unknown(r)
            F = Flow(evs, base, draw)
            F.turn = 0
            v = F.val(r.a[1])
        except Unknown as u:
            ctx.tri('draw', nm, None, b.name, u)
            continue
        ctx.ob('draw', nm, close(float(v), mean + math.sqrt(var) * z), b.name, 'gives %s' % v)


TRK = 'BayesCategoricalTracker'


@prop('P06')
def whole_tree(ctx):
    """the divergence of the posterior of the tree from its prior"""
    from rules.plugins import TREE
    op = TREE + (TRK + '::sequence_len', 'CoverTreeReader::node_count')
    b = ctx.body(TRK, 'kl_div')
    cells = []
    for ev, pts, nodes, seq in ((((11, 2.0, 3), (12, 0.0, 5), (13, 4.0, 0)), 40, 9, 6), ((), 10, 3, 0), (((11, 1.0, 0),), 7, 2, 1), (((11, 5.0, 8), (14, 3.0, None), (13, 1.0, 2)), 60, 20, 9)):
        rows = [(a, ('evidence', s)) for a, s, _ in ev]
        single = {a: n for a, _, n in ev}

        def base(t, rows=rows):
            return rows if isf(t, 'running_evidence') else None

        def node(t):
            n = [x for x in subterms(t) if x.op == 'call' and x.a[0] == 'node']
            return n[0].a[1][1] if n else None

        def extra(t, f, single=single, pts=pts, nodes=nodes, seq=seq):
            if t.op == 'field' and t.a[1] == 'singleton_count':
                v = f.val(t.a[0])
                return v[1] if isinstance(v, tuple) and v[0] == 'evidence' else None
            if len_of(t) is not None and isf(len_of(t), 'singles_indexes') and node(len_of(t)) is not None:
                return single.get(f.val(node(len_of(t))))
            if t.op == 'is' and node(t.a[0]) is not None and t.a[1] in ('Some', 'None'):
                return (single.get(f.val(node(t.a[0]))) is not None) == (t.a[1] == 'Some')
            if t.op == 'call' and t.a[0] == 'PointCloud::len':
                return pts
            if t.op == 'call' and t.a[0].endswith('::node_count'):
                return nodes
            if t.op == 'call' and t.a[0].endswith('::sequence_len'):
                return seq
            if selff(t, 'sequence_count'):
                # more paths were seen than the window holds
                return seq + 5
            return None
        live = [(s, n + 1.0) for _, s, n in ev if s > 0 and n is not None]
        prior, post = float(pts + nodes), float(pts + nodes + seq)
        want = max(0.0, math.lgamma(post) - lng(s + p for s, p in live) - math.lgamma(prior) + lng(p for _, p in live) + sum(s * (digamma(s + p) - digamma(post)) for s, p in live))
        cells.append(('kl_div of %d touched nodes, %d points, %d nodes' % (len(ev), pts, nodes), base, extra, want))
    check(ctx, 'divergence', b, cells, op)
