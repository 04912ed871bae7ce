"""D06: the distances.  Dense kernels: every coordinate goes into the sum once, whatever the length.  Sparse kernels: a merge that
accounts for each entry of both vectors once."""
import re
from itertools import product
from rules import prop
from rules.plugins import picked
from algebra import Alg, NoForm
from rulelib import *
import sem

BASES = ('f32', 'i8', 'u8', 'i16', 'u16', 'i32', 'u32')
KER = {}
for _b in BASES:
    KER['L2', _b] = ('sq_l2_dense_' + _b, 'sq_l2_norm_' + _b, 'sq_l2_sparse_%s_f32' % _b)
    KER['L1', _b] = ('l1_dense_' + _b, 'l1_norm_' + _b, 'l1_sparse_%s_f32' % _b)


def params_in(t):
    return {x.a[0] if isinstance(x.a[0], int) else x for x in subterms(t) if x.op == 'param'}


def pnames(fr):
    return list(fr.args)


def roots(fr, t):
    return frozenset(i for i, a in enumerate(fr.args) if mentions(t, lambda x: x is a))


def expect(A, metric, p):
    """the summand of the metric for the coordinate difference p"""
    if metric == 'L2':
        return A.mul(p, p)
    ks = [sem_freeze(p), sem_freeze(A.add({}, p, -1))]
    k = min(ks, key=lambda x: repr(sorted(x, key=repr)))
    return A.atom(('abs', k))


def sem_freeze(p):
    return frozenset(p.items())


def summands(t):
    t = strip_mut(t)
    if t.op == 'bin' and t.a[0] == 'Add':
        return summands(t.a[1]) + summands(t.a[2])
    if t.op == 'call' and t.a[0].split('::')[-1] == 'mul_add':
        return [t]
    return [t]


def lanes(text):
    m = re.search(r'(?:f32|[iu]\d+)x(\d+)', text) or re.search(r'\[\w+; (\d+)(?:_usize)?\]', text)
    return int(m.group(1)) if m else None


def from_slice(t):
    t = strip_mut(t)
    while t.op == 'call' and t.a[0].split('::')[-1] in ('from_cast', 'cast', 'from'):
        t = strip_mut(t.a[1][0])
    if t.op == 'call' and t.a[0].split('::')[-1] in ('from_slice_unaligned', 'from_slice_aligned', 'from_slice_unaligned_unchecked'):
        return strip_mut(t.a[1][0])
    return None


def current(fr, t, i):
    """t is (a suffix of) parameter i that only the advances of the function shorten; None when it is some other expression"""
    t = strip_mut(t)
    for g, v in alts(t):
        v = strip_mut(v)
        if v is fr.args[i] or v.op == 'rec':
            continue
        if v.op == 'index' and v.a[1].op == 'agg' and v.a[1].a[0].split('::')[-1] == 'RangeFrom':
            if current(fr, v.a[0], i) is not True:
                return None
            continue
        if v.op == 'phi':
            if current(fr, v, i) is not True:
                return None
            continue
        return None
    return True


def float_ops(ctx, fn, b, base):
    """differences and products are taken after the conversion to f32, so that they cannot wrap around"""
    if base == 'f32':
        return
    for body in ctx.eng.bodies:
        if body.name != b.name and not body.name.startswith(b.name + '::{closure'):
            continue
        for bi, blk in body.blocks.items() if isinstance(body.blocks, dict) else enumerate(body.blocks):
            if blk is None:
                continue
            for st in blk.stmts:
                rv = st.rv
                if rv is not None and rv[0] == 'bin' and rv[1].replace('Checked', '').replace('WithOverflow', '') in ('Sub', 'Mul', 'Add', 'Neg'):
                    for o in rv[2:4]:
                        if o[0] == 'place' and not o[1][1] and body.locals.get(o[1][0]) == base:
                            ctx.ob('metric/arithmetic', '%s: coordinates are converted to f32 before they are subtracted or multiplied' % fn, False, None, str(rv)[:200])
                            return
            t = blk.term
            if t is not None and t.kind == 'call':
                if re.search(r'impl %s>::(wrapping|saturating|overflowing|unchecked)_(sub|mul|add|neg|abs)' % base, str(t.func) if hasattr(t, 'func') else ''):
                    ctx.ob('metric/arithmetic', '%s: coordinates are converted to f32 before they are subtracted or multiplied' % fn, False, None, str(t.func)[:200])
                    return
                m = re.search(r'Simd<\[(\w+); \d+', str(t.func) if hasattr(t, 'func') else '')
                if m and m.group(1) == base and re.search(r'ops::(Sub|Mul|Add)|as (Sub|Mul|Add)', str(t.func)):
                    ctx.ob('metric/arithmetic', '%s: coordinates are converted to f32 before they are subtracted or multiplied' % fn, False, None, str(t.func)[:200])
                    return
    ctx.ob('metric/arithmetic', '%s: coordinates are converted to f32 before they are subtracted or multiplied' % fn, True)


def kernel(ctx, metric, fn, n, base):
    """sum of a function of the coordinates of n slices, in chunks"""
    b = ctx.free(fn)
    fr, evs = ctx.frame(b), ctx.events(b)
    float_ops(ctx, fn, b, base)
    A = Alg(evs)

    def aliased(chunk):
        def al(t):
            if chunk:
                s = from_slice(t)
                if s is None:
                    return None
                r = roots(fr, s)
                return 'XY'[min(r)] if len(r) == 1 else None
            if t.op in ('phi', 'elem', 'field', 'index', 'after') or t.op == 'payload':
                r = roots(fr, t)
                if len(r) == 1 and mentions(t, lambda x: x.op in ('elem', 'index')) and not mentions(t, lambda x: x.op == 'bin' and x.a[0] in ('Add', 'Sub', 'Mul')):
                    return 'XY'[min(r)]
            return None
        return al
    AC, AE = Alg(evs, aliased(True)), Alg(evs, aliased(False))
    X = AC.atom('X')
    d = X if n == 1 else AC.add(X, AC.atom('Y'), -1)
    want = expect(AC, metric, d)
    # the accumulators
    acc = {}
    for e in evs:
        v = l = None
        if e.kind == 'write' and strip_mut(e.lval).op == 'new' and strip_mut(e.lval).a[0] == 'Simd::splat':
            l, v = strip_mut(e.lval), e.val
        elif e.kind == 'set' and e.val is not None and mentions(e.val, lambda x: x.op == 'new' and x.a[0] == 'Simd::splat') and from_any(e.val):
            news = {x for x in subterms(e.val) if x.op == 'new' and x.a[0] == 'Simd::splat'}
            if len(news) != 1:
                return ctx.undecided('%s: accumulator %s' % (fn, e))
            l, v = news.pop(), e.val
        if l is None:
            continue
        al = aliased(True)
        B = Alg(evs, lambda t, l=l, al=al: {} if t is l or (t.op == 'phi' and has(t, l)) or t.op == 'rec' else al(t))
        try:
            got = B.poly(v)
        except NoForm:
            got = None
        acc.setdefault(l, []).append(e)
        ctx.tri('metric/chunk-term', '%s: a chunk adds the %s of its coordinates' % (fn, 'squared differences' if (metric, n) == ('L2', 2) else 'absolute differences' if n == 2 else 'squares' if metric == 'L2' else 'absolute values'),
                None if got is None or unknown_atoms(got) else got == want, e, 'adds %s' % show(e.val))
    for e in evs:
        if e.kind == 'call' and e.name == 'Simd::splat' and e.args:
            ctx.tri('metric/chunk-start', '%s: the accumulators start at zero' % fn, None if floatval(e.args[0]) is None else floatval(e.args[0]) == 0, e)
    # chunks and advances, by the condition they stand under
    sets = [e for e in evs if e.kind == 'set' and e.val is not None and strip_mut(e.val).op == 'index' and len(roots(fr, e.val)) == 1]
    groups = {}
    place = lambda e: (e.guard, frozenset(cycle_of(fr, e.chain[0][1])))
    for e in sets:
        groups.setdefault(place(e), []).append(e)
    fs = [e for e in evs if e.kind == 'call' and e.name.split('::')[-1].startswith('from_slice')]
    seen = 0
    for at, es in groups.items():
        g = at[0]
        step = {}
        for e in es:
            r = min(roots(fr, e.val))
            ix = strip_mut(e.val).a[1]
            k = intval(ix.a[1][0][1]) if ix.op == 'agg' and ix.a[0].split('::')[-1] == 'RangeFrom' else None
            if k is None or r in step or current(fr, strip_mut(e.val).a[0], r) is not True:
                return ctx.undecided('%s: advance %s' % (fn, e))
            step[r] = k
        ls = {lanes(e.full) for e in fs if place(e) == at}
        accs = [l for l, ws in acc.items() for w in ws if place(w) == at]
        if None in ls or not ls:
            return ctx.undecided('%s: chunk width' % fn)
        seen += len(accs)
        ctx.ob('metric/chunk-advance', '%s: the coordinates read in a chunk are exactly the ones stepped over, in %s' % (fn, 'both vectors' if n == 2 else 'the vector'),
               len(ls) == 1 and set(step) == set(range(n)) and set(step.values()) == ls, es[0], 'reads %s, steps over %s' % (sorted(ls), step))
        ctx.ob('metric/chunk-advance', '%s: a chunk that is stepped over is added to an accumulator once' % fn, len(accs) == 1, es[0])
        width = max(ls)
        lo = []
        for c in g:
            m = 0
            for a in c:
                if a.op == 'bin' and a.a[0] in ('Lt', 'Le') and intval(a.a[1]) is not None and len_of(a.a[2]) is not None and roots(fr, a.a[2]):
                    m = max(m, intval(a.a[1]) + (a.a[0] == 'Lt'))
            lo.append(m)
        if g and all(lo):
            ctx.ob('metric/chunk-length', '%s: a chunk is only read when the vector is long enough' % fn, min(lo) >= width, es[0], 'reads %d when there are at least %d' % (width, min(lo)))
    if seen != sum(len(w) for w in acc.values()):
        return ctx.undecided('%s: an accumulator outside the chunk loops' % fn)
    # the result
    ret = fr.ret()
    parts = summands(ret)
    sums = [strip_mut(p.a[1][0]) for p in parts if p.op == 'call' and p.a[0] == 'Simd::sum']
    base_of = [s if s.op == 'new' else next((x for x in subterms(s) if x.op == 'new' and x.a[0] == 'Simd::splat'), None) for s in sums]
    rest = [p for p in parts if not (p.op == 'call' and p.a[0] == 'Simd::sum')]
    if None in base_of:
        return ctx.undecided('%s: result %s' % (fn, show(ret)))
    for l in acc:
        ctx.ob('metric/result', '%s: every accumulator goes into the result once' % fn, base_of.count(l) == 1, acc[l][0], 'result %s' % show(ret))
    rest = [p for p in rest if not (floatval(p) == 0)]
    if len(rest) != 1:
        if not rest:
            ctx.ob('metric/leftover', '%s: the coordinates after the last chunk are added' % fn, False, None, show(ret))
        else:
            ctx.undecided('%s: result %s' % (fn, show(ret)))
        return
    ok, src = leftover(fr, evs, rest[0], AE, want, n)
    ctx.tri('metric/leftover', '%s: the coordinates after the last chunk are added' % fn, ok, None, show(rest[0]))


def from_any(t):
    return mentions(t, lambda x: from_slice(x) is not None)


def has(t, x):
    return mentions(t, lambda y: y is x)


def unknown_atoms(p):
    def odd(k):
        if k in ('X', 'Y', 'S', 'L'):
            return False
        if isinstance(k, tuple) and k[0] in ('abs', 'sqrt'):
            return any(odd(a) for m, _ in k[1] for a, _ in m)
        return True
    return any(odd(a) for m in p for a, _ in m)


def leftover(fr, evs, t, A, want, n):
    t = strip_mut(t)
    if t.op == 'phi':
        rec = [v for g, v in t.a[0] if mentions(v, lambda x: x.op == 'rec' and 'fold' in str(x.a[1]))]
        recs = {x for g, v in t.a[0] for x in subterms(v) if x.op == 'rec' and not fr.args_rec(x)} if hasattr(fr, 'args_rec') else {x for g, v in t.a[0] for x in subterms(v) if x.op == 'rec'}
        ini = [v for g, v in t.a[0] if not mentions(v, lambda x: x.op == 'rec')]
        if rec:
            stp = rec
            if len(ini) != 1 or floatval(ini[0]) != 0:
                return None, None
            fold = {x for v in rec for x in subterms(v) if x.op == 'rec' and 'fold' in str(x.a[1])}
            if len(fold) != 1 or len(rec) != 1:
                return None, None
            r = fold.pop()
            al = A.alias
            B = Alg(evs, lambda x: {} if strip_mut(x) is r else al(x))
            try:
                got = B.poly(rec[0])
            except NoForm:
                return None, None
            srcs = [e.args[0] for e in evs if e.kind == 'call' and e.name == 'Iterator::fold']
        else:
            # a loop over what is left
            sets = [e for e in evs if e.kind == 'set' and e.val is not None and any(a.op == 'each' for c in e.guard for a in c)]
            sets = [e for e in sets if any(strip_mut(v).op == 'rec' and strip_mut(v).a[1] == e.lval.a[1] or v is e.val for g, v in t.a[0])]
            if len(sets) != 1:
                return None, None
            e = sets[0]
            me = e.lval.a[1]
            al = A.alias
            B = Alg(evs, lambda x: {} if (x.op == 'rec' and x.a[1] == me) or (x.op == 'phi' and any(strip_mut(v).op == 'rec' and strip_mut(v).a[1] == me for _, v in x.a[0])) else al(x))
            try:
                got = B.poly(e.val)
            except NoForm:
                return None, None
            srcs = [a.a[0] for a in must_atoms(e.guard) if a.op == 'each']
    elif t.op == 'call' and t.a[0].split('::')[-1] == 'sum':
        q = strip_mut(t.a[1][0])
        try:
            got = A.poly(q.a[1] if q.op == 'mapped' else sem.elem(q))
        except NoForm:
            return None, None
        srcs = [q]
    else:
        return None, None
    if unknown_atoms(got):
        return None, None
    if got != want:
        return False, None
    if len(srcs) != 1:
        return None, None
    s = strip_mut(srcs[0])
    while s.op == 'mapped':
        s = strip_mut(s.a[0])
    ss = [s.a[0], s.a[1]] if s.op == 'zip' else [s]
    rs = [roots(fr, x) for x in ss]
    if sorted(map(sorted, rs)) != [[i] for i in range(n)]:
        return None, None
    for x, r in zip(ss, rs):
        i = min(r)
        x = strip_mut(x)
        if current(fr, x, i) is not True:
            return None, None
        if x is fr.args[i] and any(e.kind == 'set' and e.val is not None and strip_mut(e.val).op == 'index' and roots(fr, e.val) == r for e in evs):
            return False, None       # reads the whole vector again
    return True, s


# ---- the merge ---------------------------------------------------------------------------

def merge(ctx, metric, fn, norm, base):
    b = ctx.free(fn)
    nb = ctx.free(norm)
    fr = ctx.frame(b, opaque=opaque_of(nb))
    evs = ctx.events(b, opaque=opaque_of(nb))
    float_ops(ctx, fn, b, base)
    xi, xv, yi, yv = fr.args
    # empty vectors
    ret = fr.ret()
    for ex, ey in product((True, False), repeat=2):
        def leaf(t):
            if t.op in ('empty', 'nonempty'):
                r = roots(fr, t.a[0])
                if len(r) == 1:
                    return (ex if min(r) < 2 else ey) == (t.op == 'empty')
            v = len_of(t)
            if v is not None:
                r = roots(fr, v)
                if len(r) == 1:
                    return 0 if (ex if min(r) < 2 else ey) else 3
            return None
        v = picked(Model(leaf), ret)
        if not ex and not ey:
            continue
        ok = None
        if v is not None:
            if v.op == 'call' and v.a[0].split('::')[-1] == norm:
                a = strip_mut(v.a[1][0])
                ok = ((a is xv and not ex) or (a is yv and not ey)) or (ex and ey)
            elif floatval(v) is not None:
                ok = ex and ey and floatval(v) == 0
            elif v.op == 'phi' and ex and ey:
                ok = None
        ctx.tri('metric/empty', '%s: with x %s and y %s the result is %s' % (fn, 'empty' if ex else 'non-empty', 'empty' if ey else 'non-empty', '0' if ex and ey else 'the norm of the other vector'), ok, None, 'gives %s' % (v is not None and show(v)))
    # the merge itself
    cur = {e.lval.a[1] for e in evs if e.kind == 'set' and e.lval.op == 'var' and e.val is not None and strip_mut(e.val).op == 'iternext'}
    if len(cur) != 1:
        return ctx.undecided('%s: %d cursors' % (fn, len(cur)))
    cur = cur.pop()
    long_ = lambda t: mentions(t, lambda x: x.op == 'rec' and x.a[1] == cur)
    tot = {x.a[1] for x in subterms(ret) if x.op == 'rec' and x.a[1] != cur}
    tot &= {e.lval.a[1] for e in evs if e.kind == 'set' and e.lval.op == 'var'}
    if len(tot) != 1:
        return ctx.undecided('%s: total' % fn)
    tot = tot.pop()
    IND, VAL = frozenset((0, 2)), frozenset((1, 3))

    def part(t):
        t = strip_mut(t)
        if t.op not in ('phi', 'elem', 'payload', 'field', 'index'):
            return None
        r = roots(fr, t)
        if not r:
            return None
        if r <= IND:
            return ('i', 'L' if long_(t) else 'S')
        if r <= VAL:
            return ('v', 'L' if long_(t) else 'S')
        return None
    istot = lambda t: (t.op == 'rec' and t.a[1] == tot) or (t.op == 'phi' and any(strip_mut(v).op == 'rec' and strip_mut(v).a[1] == tot for _, v in t.a[0]))

    def alias(t):
        if istot(t):
            return {}
        p = part(t)
        return p[1] if p and p[0] == 'v' else None
    A = Alg(evs, alias)
    S, L = A.atom('S'), A.atom('L')
    terms = {sem_freeze(expect(A, metric, S)): 'S', sem_freeze(expect(A, metric, L)): 'L', sem_freeze(expect(A, metric, A.add(S, L, -1))): 'SL'}
    # which vector is walked by the loop and which by the cursor
    src = [strip_mut(e.val).a[0] for e in evs if e.kind == 'set' and e.lval.op == 'var' and e.lval.a[1] == cur]
    each_ = {a.a[0] for e in evs if e.kind == 'set' and e.lval.op == 'var' and e.lval.a[1] == tot for c in e.guard for a in c if a.op == 'each'}
    sides = None
    if len(each_) == 1:
        sides = opposite(fr, strip_mut(next(iter(each_))), strip_mut(src[0]))
    ctx.tri('metric/merge', '%s: the merge walks both vectors, each index with its own value' % fn, sides, None, show((next(iter(each_)) if each_ else None, src[:1])))
    bad = []
    unk = []

    def step(s, e):
        if s[0] == 'err':
            return s
        sh, lg, rel, old = s
        if e.kind == 'set' and e.lval.op == 'var' and e.lval.a[1] == cur:
            if e.val is None or strip_mut(e.val).op != 'iternext':
                unk.append(e)
                return s
            if lg == 'p':
                if old is not None:
                    return ('err', 'steps over two entries of the longer vector before one is added', e.where())
                return (sh, '?', ALL, rel if sh != 'e' else 'e')
            if lg == '?' :
                return ('err', 'steps over an entry of the longer vector without adding it', e.where())
            return (sh, '?', ALL, old)
        if e.kind == 'set' and e.lval.op == 'var' and e.lval.a[1] == tot:
            if not mentions(e.val, istot):
                return s            # the start value, looked at below
            try:
                k = A.poly(e.val)
            except NoForm:
                unk.append(e)
                return s
            w = terms.get(sem_freeze(k))
            if w is None:
                if unknown_atoms(k):
                    unk.append(e)
                    return s
                return ('err', 'adds %s' % show(e.val), e.where())
            r = rel
            if w in ('L', 'SL') and old is not None:
                r = old
            if w == 'L':
                if lg != 'p' and old is None:
                    return ('err', 'adds an entry of the longer vector twice', e.where())
                if not (sh in ('e',) or r == 'e' or r == LT):
                    return ('err', 'adds an entry of the longer vector alone though its index may occur in the other one', e.where())
                return (sh, lg, rel, None) if old is not None else (sh, 'a', rel, None)
            if w == 'S':
                if sh != 'p':
                    return ('err', 'adds an entry of the shorter vector twice', e.where())
                if not (lg == 'n' or rel == GT):
                    return ('err', 'adds an entry of the shorter vector alone though its index may occur in the other one', e.where())
                return ('-', lg, rel, old)
            if sh != 'p' or (lg != 'p' and old is None):
                return ('err', 'adds a difference of entries that were added before', e.where())
            if r != EQ:
                return ('err', 'adds the difference of two entries with different indexes', e.where())
            return ('-', lg, rel, None) if old is not None else ('-', 'a', rel, None)
        return s

    def edge(f, dnf, s):
        if f is not fr or s[0] == 'err' or len(dnf) != 1:
            return s
        for a in next(iter(dnf)):
            sh, lg, rel, old = s
            if a.op in ('each', 'done') and a.a[0] in each_ and not long_(a.a[0]):
                if sh == 'p':
                    return ('err', 'leaves an entry of the shorter vector out', None)
                if old is not None:
                    return ('err', 'leaves an entry of the longer vector out', None)
                if sh == 'e':
                    return None
                s = ('p' if a.op == 'each' else 'e', lg, ALL, old)
            elif a.op == 'is' and long_(a.a[0]) and a.a[1] in ('Some', 'None'):
                if lg in ('p', 'n'):
                    if (lg == 'p') != (a.a[1] == 'Some'):
                        return None
                elif lg == 'a':
                    pass
                else:
                    s = (sh, 'p' if a.a[1] == 'Some' else 'n', rel, old)
            elif a.op == 'bin' and a.a[0] in ('Lt', 'Le', 'Eq', 'Ne'):
                p, q = part(a.a[1]), part(a.a[2])
                if p and q and p[0] == q[0] == 'i' and p[1] != q[1]:
                    o = {'Lt': LT, 'Le': LT | EQ, 'Eq': EQ, 'Ne': LT | GT}[a.a[0]]
                    if p[1] == 'S':
                        o = frozenset({'lt': 'gt', 'gt': 'lt', 'eq': 'eq'}[x] for x in o)
                    o = o & rel
                    if not o:
                        return None
                    s = (sh, lg, o, old)
        return s
    ts = Flagged(step, edge=edge)
    out = ts.run(fr, ('-', '0', ALL, None))
    if unk:
        return ctx.undecided('%s: %s' % (fn, unk[0]))
    errs = {(x[1], x[2]) for x in out if x[0] == 'err'}
    for x in out:
        if x[0] == 'err' or x[1] == '0':
            continue
        if x[0] == 'p':
            errs.add(('leaves an entry of the shorter vector out', None))
        elif x[0] == '-':
            errs.add(('returns before the shorter vector ends', None))
        if x[1] != 'n':
            errs.add(('leaves the rest of the longer vector out', None))
        if x[3] is not None:
            errs.add(('leaves an entry of the longer vector out', None))
    if not [x for x in out if x[0] == 'err' or x[1] != '0']:
        return ctx.undecided('%s: no merge' % fn)
    ctx.ob('metric/merge', '%s: every entry of both vectors is added once: alone where the other vector has no entry at its index, as a difference where it has' % fn, not errs,
           next((w for _, w in sorted(errs, key=str) if w), None), '; '.join(sorted(m for m, _ in errs)))
    ini = [e for e in evs if e.kind == 'set' and e.lval.op == 'var' and e.lval.a[1] == tot and not mentions(e.val, istot)]
    ctx.tri('metric/merge', '%s: the total starts at zero' % fn, None if len(ini) != 1 or floatval(ini[0].val) is None else floatval(ini[0].val) == 0, ini[0] if ini else None)


ALL = frozenset(('lt', 'eq', 'gt'))
LT, EQ, GT = frozenset(('lt',)), frozenset(('eq',)), frozenset(('gt',))


def zip_side(fr, v):
    v = strip_mut(v)
    while v.op == 'taken' and v.a[1] == 'skip':
        v = strip_mut(v.a[0])
    if v.op != 'zip':
        return None
    r = [i for x in v.a[:2] for i, a in enumerate(fr.args) if strip_mut(x) is a]
    if len(r) != 2:
        return None
    return {(0, 1): 'x', (2, 3): 'y'}.get(tuple(r), 'mixed')


def opposite(fr, a, b):
    """the two sources are the two vectors, whichever way the branch goes"""
    for w in ('taken',):
        while b.op == 'taken' and b.a[1] == 'skip':
            b = strip_mut(b.a[0])
    la, lb = alts(a), alts(b)
    seen = set()
    for ga, va in la:
        for gb, vb in lb:
            if not dnf_sat(ga, gb):
                continue
            s, t = zip_side(fr, va), zip_side(fr, vb)
            if s is None or t is None:
                return None
            seen.add((s, t))
    return bool(seen) and seen <= {('x', 'y'), ('y', 'x')}


def dnf_sat(g, h):
    """g and h can hold together, as far as complementary comparisons tell"""
    for c in g:
        for d in h:
            if not any(negate(x) == y or negate(x) is y for x in c for y in d if x.op == y.op == 'bin'):
                return True
    return False


def opaque_of(b):
    """the name under which calls of a free function are written"""
    segs = b.name.split('::')
    return ('::'.join(segs[-2:]),)


@prop('D06')
def d06(ctx):
    for metric in ('L2', 'L1'):
        for base in BASES:
            dense, norm, sparse = KER[metric, base]
            for f in (lambda: kernel(ctx, metric, dense, 2, base), lambda: kernel(ctx, metric, norm, 1, base), lambda: merge(ctx, metric, sparse, norm, base)):
                try:
                    f()
                except Missing as m:
                    ctx.undecided(m)
    dists(ctx)


def dists(ctx):
    """dist(x, y) is the kernel of its metric on the two points"""
    for metric in ('L2', 'L1'):
        ks = {k: (n, s) for (m, s), ns in KER.items() if m == metric for k, n in ((ns[0], 'dense'), (ns[2], 'sparse'))}
        bs = ctx.eng.find(metric, 'dist')
        if not bs:
            ctx.undecided('no dist of %s' % metric)
        for b in bs:
            bases = '%s' % (b.owner,)
            frees = [x for x in ctx.eng.bodies if x.name.split('::')[-1] in {n for v in KER.values() for n in v}]
            fr = ctx.frame(b, opaque=tuple({o for x in frees for o in opaque_of(x)}))
            ctx.functions[b.name] = 1
            t = strip_mut(fr.ret())
            root = False
            if t.op == 'call' and t.a[0].split('::')[-1] == 'sqrt':
                root, t = True, strip_mut(t.a[1][0])
            key = '%s::dist(%s)' % (metric, re.sub(r'.*(Metric<.*)>.*', r'\1', str(b.sig if hasattr(b, 'sig') else ''))[:40] or b.params)
            key = '%s::dist(%s)' % (metric, ', '.join(str(b.locals.get(p if isinstance(p, int) else p[0], '?')) for p in b.params[:1]))
            if t.op != 'call' or t.a[0].split('::')[-1] not in {n for v in KER.values() for n in v}:
                ctx.undecided('%s: %s' % (key, show(t)))
                continue
            nm = t.a[0].split('::')[-1]
            ctx.ob('metric/dist', '%s uses the sums of its own metric' % key, nm in ks, None, 'calls %s' % nm)
            if nm in ks:
                ctx.ob('metric/dist', '%s is %s' % (key, 'the square root of the sum of squares' if metric == 'L2' else 'the sum of absolute differences'), root == (metric == 'L2'), None, show(fr.ret()))
                n = 2 if ks[nm][0] == 'dense' else 4
                A = [strip_mut(x) for x in t.a[1]]
                ok = None
                if n == 2 and len(A) == 2:
                    r = [roots(fr, x) for x in A]
                    ok = sorted(map(sorted, r)) == [[0], [1]]
                elif n == 4 and len(A) == 4:
                    r = [(min(roots(fr, x)) if len(roots(fr, x)) == 1 else None, 'indexes' if mentions(x, lambda y: (y.op == 'call' and y.a[0].endswith('indexes')) or (y.op == 'field' and str(y.a[1]).startswith('indexes'))) else 'values' if mentions(x, lambda y: (y.op == 'call' and y.a[0].endswith('values')) or (y.op == 'field' and str(y.a[1]).startswith('values'))) else None) for x in A]
                    if all(x is not None and y is not None for x, y in r):
                        ok = r in ([(0, 'indexes'), (0, 'values'), (1, 'indexes'), (1, 'values')], [(1, 'indexes'), (1, 'values'), (0, 'indexes'), (0, 'values')])
                ctx.tri('metric/dist', '%s passes both points, whole' % key, ok, None, show(t))


# ---- D07: views of a point -----------------------------------------------------------------

def whole(t, src):
    """t holds the elements of src, in order, each once and unchanged; None when it cannot be told"""
    t = strip_mut(t)
    if t is src:
        return True
    if t.op == 'call' and t.a[0].split('::')[-1] in ('from', 'to_vec', 'to_owned', 'into_vec', 'copied', 'cloned', 'collect'):
        return whole(t.a[1][0], src)
    if t.op == 'mapped':
        w = whole(t.a[0], src)
        if w is not True:
            return w
        v = strip_mut(t.a[1])
        if v is sem.elem(src):
            return True
        return False if v.op in ('narrow', 'bin', 'un', 'const') else None
    if t.op in ('taken', 'rev', 'filtered', 'stepby'):
        return False
    return None


@prop('D07')
def d07(ctx):
    for f in (d07_dense, d07_next, d07_sparse, d07_new):
        try:
            f(ctx)
        except Missing as m:
            ctx.undecided(m)


def d07_dense(ctx):
    for b in ctx.eng.find('slice', 'dense', 'PointRef'):
        fr = ctx.frame(b)
        ctx.functions[b.name] = 1
        ctx.tri('view/dense', 'dense of %s: every coordinate, in order' % b.locals.get(1), whole(fr.ret(), fr.args[0]), None, show(fr.ret()))
    for b in ctx.eng.find('slice', 'dense_iter', 'PointRef'):
        fr = ctx.frame(b)
        ctx.functions[b.name] = 1
        t = strip_mut(fr.ret())
        if t.op == 'agg' and len(t.a[1]) == 1:
            t = t.a[1][0][1]
        ctx.tri('view/dense-iter', 'dense_iter of %s: walks every coordinate, in order' % b.locals.get(1), whole(t, fr.args[0]), None, show(fr.ret()))
    for base in BASES[1:]:
        b = ctx.body('Converter' + base, 'next', 'Iterator')
        fr = ctx.frame(b)
        t = strip_mut(fr.ret())
        ok = None
        if t.op == 'optmap' and strip_mut(t.a[0]).op == 'iternext':
            src = strip_mut(t.a[0]).a[0]
            v = strip_mut(t.a[1])
            ok = True if v is sem.elem(src) and strip_mut(src).op == 'field' else False if v.op in ('narrow', 'bin', 'un', 'const') or strip_mut(src).op in ('taken', 'rev') else None
        ctx.tri('view/dense-iter', 'Converter%s::next: the next coordinate, as it is' % base, ok, None, show(t))


def d07_next(ctx):
    b = ctx.body('SparseDenseIter', 'next', 'Iterator')
    fr, evs = ctx.frame(b), ctx.events(b)
    me = fr.args[0]
    f = lambda *n: lambda t: selff(t, *n)
    ptr = lambda t, w: t.op == 'call' and t.a[0].split('::')[-1] in ('add', 'offset') and selff(t.a[1][0], 'raw', w) or t.op == 'index' and mentions(t.a[0], lambda x: selff(x, 'raw', w))
    where = lambda t: strip_mut(t.a[1][1] if t.op == 'call' else t.a[1])
    bad, unk, n = [], None, 0
    dim = 3
    for i, ln, s in product(range(4), range(3), range(3)):
        if s > ln:
            continue
        for si in (range(i, 4) if s < ln else (None,)):
            n += 1
            reads = []

            def read(t, st):
                if selff(t, 'index'):
                    return st['index']
                if selff(t, 'sparse_index'):
                    return st['sparse_index']
                if selff(t, 'raw', 'dim') or is_call(t, 'RawSparse::dim'):
                    return dim
                if selff(t, 'raw', 'len'):
                    return ln
                if len_of(t) is not None and mentions(t, lambda x: selff(x, 'raw')):
                    return ln
                if t.op == 'payload' and ptr(strip_mut(t.a[0]), 'indexes_ptr'):
                    t = strip_mut(t.a[0])
                if t.op == 'is' and ptr(strip_mut(t.a[0]), 'indexes_ptr'):
                    return t.a[1] in ('Ok', 'Some')
                if ptr(t, 'indexes_ptr'):
                    return si if si is not None else 77
                return None

            def effect(e, sim, st):
                if e.kind == 'write' and (selff(e.lval, 'index') or selff(e.lval, 'sparse_index')):
                    st[e.lval.a[1]] = sim.val(e.val)
                    return True
                if e.kind == 'write' and mentions(e.lval, lambda x: x is me):
                    raise Unknown(e)
                return False
            init = {'index': i, 'sparse_index': s}
            cell = 'coordinate %d of 3, stored entry %s' % (i, 'none left' if si is None else 'at %d' % si)
            try:
                outs = post_states(evs, init, read, effect)
                M = Model(lambda t: read(t, init))
                v = picked(M, fr.ret())
                if v is None:
                    raise Unknown('result')
                if v.op == 'some' and strip_mut(v.a[0]).op == 'phi':
                    v = mk('some', picked(M, v.a[0]))
            except Unknown as u:
                unk = unk or '%s: %s' % (cell, u)
                continue
            if i >= dim:
                want, wst = 'none', init
            elif si == i:
                want, wst = 'value', {'index': i + 1, 'sparse_index': s + 1}
            else:
                want, wst = 'zero', {'index': i + 1, 'sparse_index': s}
            got = None
            if v.op == 'agg' and v.a[0].endswith('None'):
                got = 'none'
            elif v.op == 'some':
                x = strip_mut(v.a[0])
                if floatval(x) is not None:
                    got = 'zero' if floatval(x) == 0 else 'other'
                elif ptr(x, 'values_ptr'):
                    got = 'value' if selff(where(x), 'sparse_index') else None
            if got is None:
                unk = unk or '%s gives %s' % (cell, show(v))
            elif got != want:
                bad.append('%s gives %s' % (cell, show(v)))
            # branches are decided before the cursors move: the first reading; a second one only matters when the first fails
            a = True if outs[0] == wst else agree(outs, lambda o: o == wst)
            if a is False:
                bad.append('%s leaves %s' % (cell, outs))
            elif a is None:
                unk = unk or cell
    ctx.tri('view/sparse-iter', 'SparseDenseIter::next: the stored value where there is one, zero elsewhere, dim coordinates in all (%d cells)' % n, False if bad else None if unk else True, None, '; '.join(bad[:3]) or unk)
    # no entry past the stored ones is read
    odd, un = None, None
    for e in evs:
        if e.kind == 'call' and ptr(mk('call', e.name, e.args), 'indexes_ptr' if mentions(e.args[0], lambda x: selff(x, 'raw', 'indexes_ptr')) else 'values_ptr') and selff(e.args[1], 'sparse_index'):
            def leaf(t):
                if selff(t, 'index'):
                    return 1
                if selff(t, 'sparse_index'):
                    return 2
                if selff(t, 'raw', 'dim') or is_call(t, 'RawSparse::dim'):
                    return 3
                if selff(t, 'raw', 'len'):
                    return 2
                return None
            k = Model(leaf).guard(e.guard)
            if k:
                odd = e
            elif k is None and not mentions_guard(e.guard, lambda x: ptr(x, 'indexes_ptr') if x.op in ('call', 'index') else False):
                un = e
    ctx.tri('view/sparse-bounds', 'SparseDenseIter::next reads no entry past the stored ones', False if odd else None if un else True, odd)


def mentions_guard(g, p):
    return any(mentions(a, p) for c in g for a in c)


def raw_part(t, which):
    """t is the slice of the stored values or indexes"""
    t = strip_mut(t)
    if t.op == 'call' and t.a[0].endswith('from_raw_parts'):
        p, n = t.a[1]
        return path_end(p) == which + '_ptr' and path_end(n) == 'len'
    return None


def path_end(t):
    t = strip_mut(t)
    return t.a[1] if t.op == 'field' else None


def d07_sparse(ctx):
    for ty in ('RawSparse', 'SparseRef'):
        for m in ('indexes', 'values'):
            b = ctx.body(ty, m)
            fr = ctx.frame(b)
            ctx.tri('view/sparse-parts', '%s::%s: the stored %s, all of them' % (ty, m, m), raw_part(fr.ret(), m), None, show(fr.ret()))
        fr = ctx.frame(ctx.body(ty, 'dim'))
        t = strip_mut(fr.ret())
        ctx.tri('view/sparse-parts', '%s::dim: the dimension' % ty, path_end(t) == 'dim' if t.op == 'field' else None if t.op != 'const' and len_of(t) is None else False, None, show(t))
    b = ctx.body('SparseRef', 'dense', 'PointRef')
    fr, evs = ctx.frame(b), ctx.events(b)
    v = strip_mut(fr.ret())
    if v.op == 'call' and v.a[0].endswith('from_elem'):
        ok = True
        for dim, ln in ((5, 3), (5, 0), (3, 3)):
            try:
                n = Model(lambda t: dim if t.op == 'field' and t.a[1] == 'dim' else ln if (t.op == 'field' and t.a[1] == 'len') or (len_of(t) is not None and raw_part(len_of(t), 'values') is not None) else None).val(v.a[1][1])
            except Unknown:
                n = None
            if n is None:
                ok = None
            elif n != dim:
                ok = False
                break
        z = floatval(v.a[1][0])
        ctx.tri('view/sparse-dense', 'SparseRef::dense: dim coordinates, zero where nothing is stored', False if z not in (None, 0) else None if z is None else ok, None, show(v))
        ws = [e for e in evs if e.kind == 'write' and strip_mut(e.lval).op == 'index' and strip_mut(strip_mut(e.lval).a[0]) is v]
        ok = None
        if len(ws) == 1:
            e = ws[0]
            ix, val = strip_mut(strip_mut(e.lval).a[1]), strip_mut(e.val)
            while ix.op in ('payload', 'narrow'):
                ix = strip_mut(ix.a[0])
            src = [a.a[0] for a in must_atoms(e.guard) if a.op == 'each']
            extra = [a for c in e.guard for a in c if a.op not in ('each', 'try') and not (a.op == 'is' and a.a[1] in ('Ok', 'Some'))]
            if ix.op == 'elem' and val.op == 'elem' and raw_part(ix.a[0], 'indexes') is not None and raw_part(val.a[0], 'values') is not None:
                ok = bool(raw_part(ix.a[0], 'indexes') and raw_part(val.a[0], 'values'))
                if ok:
                    if len(src) != 1 or extra:
                        ok = None
                    else:
                        s = strip_mut(src[0])
                        while s.op == 'rev':
                            s = strip_mut(s.a[0])
                        parts = [strip_mut(x) for x in s.a[:2]] if s.op == 'zip' else [s] if s.op in ('taken', 'stepby') else None
                        ok = None if parts is None else all(p.op == 'call' for p in parts)
                        if ok is False and any(p.op in ('taken', 'rev', 'filtered', 'index') for p in parts):
                            ok = False
                        elif ok is False:
                            ok = None
                if ok is None and extra and all(a.op in ('bin', 'bool') for a in extra):
                    # a condition on the entries: fine only if it leaves out zeros
                    ok = None if all(any(floatval(x) == 0 for x in a.a if isinstance(x, sem.T)) for a in extra) else False
            elif raw_part(sem_src(ix), 'values') or raw_part(sem_src(val), 'indexes'):
                ok = False
        elif not ws:
            ok = None
        ctx.tri('view/sparse-dense', 'SparseRef::dense: each stored value at its index', ok, ws[0] if ws else None, str(ws[:1])[:300])
    else:
        ctx.undecided('SparseRef::dense returns %s' % show(v))
    fr = ctx.frame(ctx.body('SparseRef', 'dense_iter', 'PointRef'))
    t = strip_mut(fr.ret())
    if t.op == 'agg':
        d = dict(t.a[1])
        raw = strip_mut(d['raw']) if 'raw' in d else None
        ok = intval(d.get('index')) == 0 and intval(d.get('sparse_index')) == 0 if 'index' in d and 'sparse_index' in d else None
        if ok and raw is not None and raw.op == 'agg':
            ok = all(path_end(x) == n for n, x in raw.a[1])
        elif ok and raw is not None:
            ok = True if path_end(raw) == 'raw' else None
        ctx.tri('view/sparse-iter', 'SparseRef::dense_iter starts at the first coordinate of the point', ok, None, show(t))
    else:
        ctx.undecided('dense_iter %s' % show(t))


def sem_src(t):
    t = strip_mut(t)
    while t.op in ('payload', 'narrow', 'elem', 'index'):
        t = strip_mut(t.a[0])
    return t


def d07_new(ctx):
    b = ctx.body('SparseRef', 'new')
    fr, evs = ctx.frame(b), ctx.events(b)
    t = strip_mut(fr.ret())
    raw = strip_mut(dict(t.a[1]).get('raw')) if t.op == 'agg' and 'raw' in dict(t.a[1]) else None
    if raw is None or raw.op != 'agg':
        return ctx.undecided('SparseRef::new %s' % show(t))
    d = {k: strip_mut(v) for k, v in raw.a[1]}
    dim, vals, inds = fr.args
    ptr = lambda x, s: True if x.op == 'call' and x.a[0].endswith('as_ptr') and strip_mut(x.a[1][0]) is s else False if x.op == 'call' and x.a[0].endswith('as_ptr') and strip_mut(x.a[1][0]) in (vals, inds) else None
    ctx.tri('view/sparse-new', 'SparseRef::new keeps the values', ptr(d['values_ptr'], vals), None, show(d['values_ptr']))
    ctx.tri('view/sparse-new', 'SparseRef::new keeps the indexes', ptr(d['indexes_ptr'], inds), None, show(d['indexes_ptr']))
    ctx.tri('view/sparse-new', 'SparseRef::new keeps the dimension', True if d['dim'] is dim else None if d['dim'].op != 'call' and len_of(d['dim']) is None else False, None, show(d['dim']))
    n = len_of(d['len'])
    ctx.tri('view/sparse-new', 'SparseRef::new: as many entries as values', (n is not None and strip_mut(n) in (vals, inds)) or None, None, show(d['len']))
    # values and indexes of different lengths are refused: otherwise entries past the end of one are read
    cells = []
    for a, c in ((2, 3), (3, 2), (2, 2)):
        def leaf(t):
            x = len_of(t)
            if x is not None and strip_mut(x) is vals:
                return a
            if x is not None and strip_mut(x) is inds:
                return c
            return None
        M = Model(leaf)
        st = {M.guard(e.guard) for e in evs if e.kind == 'call' and ('panick' in e.name or 'panic' in e.name or e.name.endswith('assert_failed'))}
        p = True if True in st else None if None in st else False
        try:
            ln = M.val(d['len'])
        except Unknown:
            ln = None
        if a == c:
            cells.append(None if p is None else not p)
        else:
            cells.append(True if p else None if p is None or ln is None else ln <= min(a, c))
    ctx.tri('view/sparse-new', 'SparseRef::new: lengths that differ are refused, equal ones are not', False if False in cells else None if None in cells else True, None, str(cells))
