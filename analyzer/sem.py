"""Value-flow / effect analysis over MIR bodies.

Terms are hash-consed value expressions (provenance), computed by demand-driven
reaching definitions, with references, derefs, clones, conversions and `?`
made transparent, in-crate helpers and closures inlined, and loops over
iterators abstracted as `elem(source)`.  Every call / heap write / return is an
Event carrying its argument terms and its guard: the forward control-dependence
condition in disjunctive normal form, with comparisons normalised.

No path is executed and no condition is solved: guards are syntactic normal
forms, terms are provenance.
"""
import re
import sys
from mir import split_top, match_close, ParseError
from src import base_ty, strip_generics

sys.setrecursionlimit(60000)


class T:
    __slots__ = ('op', 'a', 'id', '_s', '_n')
    pool = {}
    cnt = 0

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *a):
    k = (op,) + a
    t = T.pool.get(k)
    if t is None:
        t = T()
        t.op, t.a = op, a
        t.id = T.cnt
        T.cnt += 1
        t._s = None
        n = 1
        for x in a:
            if isinstance(x, T):
                n += x._n
            elif isinstance(x, tuple):
                for y in x:
                    n += _sz(y)
        t._n = n
        T.pool[k] = t
    return t


def _sz(y):
    if isinstance(y, T):
        return y._n
    if isinstance(y, tuple):
        return sum(_sz(z) for z in y)
    return 0


def show(t, depth=12):
    if not isinstance(t, T):
        if isinstance(t, frozenset):
            return '{' + ', '.join(sorted(show(x, depth) for x in t)) + '}'
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, depth) for x in t) + ')'
        return str(t)
    if depth <= 0:
        return '..'
    if t._s is not None and depth >= 12:
        return t._s
    d = depth - 1
    op, a = t.op, t.a
    if op == 'param':
        s = '$%s' % a[1]
    elif op == 'const':
        s = a[0]
    elif op == 'field':
        s = '%s.%s' % (show(a[0], d), a[1])
    elif op == 'bin':
        s = '%s(%s, %s)' % (a[0], show(a[1], d), show(a[2], d))
    elif op == 'un':
        s = '%s(%s)' % (a[0], show(a[1], d))
    elif op == 'call':
        s = '%s(%s)' % (a[0], ', '.join(show(x, d) for x in a[1]))
    elif op == 'agg':
        s = '%s{%s}' % (a[0], ', '.join('%s: %s' % (n, show(v, d)) for n, v in a[1]))
    elif op == 'phi':
        s = 'phi[' + ' | '.join(sorted('%s' % show(v, d) for g, v in a[0])) + ']'
    elif op == 'closure':
        s = '|%s|' % a[0].partition('#')[0].split('src/')[-1].split(': ')[0]
    else:
        s = '%s(%s)' % (op, ', '.join(show(x, d) for x in a))
    if depth >= 12:
        t._s = s
    return s


TRUE = frozenset([frozenset()])


def dnf_and(x, y):
    if x is TRUE or x == TRUE:
        return y
    if y is TRUE or y == TRUE:
        return x
    out = set()
    for a in x:
        for b in y:
            out.add(a | b)
    if len(out) > 24:
        out = {frozenset.intersection(*out)}
    return frozenset(out)


def must_atoms(d):
    it = iter(d)
    try:
        r = next(it)
    except StopIteration:
        return frozenset()
    for x in it:
        r = r & x
    return r


def const(v):
    return mk('const', v)


def field(b, n):
    if b.op == 'agg':
        for k, v in b.a[1]:
            if k == n:
                return v
    if b.op == 'mutref':
        return field(b.a[1], n)
    if b.op == 'phi':
        return phi([(g, field(v, n)) for g, v in b.a[0]])
    if b.op == 'some':
        return mk('field', b, n)
    return mk('field', b, n)


def phi(alts):
    flat = {}
    order = []

    def add(g, v):
        if not g:
            return
        if v.op == 'phi':
            for g2, v2 in v.a[0]:
                add(dnf_and(g, g2), v2)
            return
        if v in flat:
            flat[v] = frozenset(flat[v] | g)
            if len(flat[v]) > 24:
                flat[v] = frozenset([must_atoms(flat[v])])
        else:
            flat[v] = g
            order.append(v)
    for g, v in alts:
        add(g, v)
    if len(order) == 1:
        return order[0]
    if not order:
        return mk('never')
    return mk('phi', tuple(sorted(((flat[v], v) for v in order), key=lambda x: x[1].id)))


def alts(t):
    """[(guard dnf, term)] of a possibly-phi term."""
    return list(t.a[0]) if t.op == 'phi' else [(TRUE, t)]


NONEISH = {'None', 'Err', 'Pending', 'Break'}


def variant_of(t):
    if t.op == 'agg':
        return t.a[0].split('::')[-1]
    return None


def payload(t):
    """value inside Some/Ok/Ready/Continue."""
    if t.op == 'agg':
        v = variant_of(t)
        if v in ('Some', 'Ok', 'Ready', 'Continue') and len(t.a[1]) == 1:
            return t.a[1][0][1]
        if v in NONEISH:
            return mk('never')
    if t.op in ('some', 'ok'):
        return t.a[0]
    if t.op == 'optmap':
        return t.a[1]
    if t.op == 'phi':
        xs = [(g, payload(v)) for g, v in t.a[0]]
        xs = [(g, v) for g, v in xs if v.op != 'never']
        return phi(xs) if xs else mk('never')
    if t.op == 'mutref':
        return payload(t.a[1])
    if t.op == 'never':
        return t
    if t.op == 'residual':
        return mk('never')
    if t.op == 'iternext':
        return elem(t.a[0])
    return mk('payload', t)


def errload(t):
    if t.op == 'agg':
        v = variant_of(t)
        if v in ('Err', 'Break') and len(t.a[1]) == 1:
            return t.a[1][0][1]
        if v in ('Ok', 'Some', 'None', 'Continue'):
            return mk('never')
    if t.op == 'phi':
        xs = [(g, errload(v)) for g, v in t.a[0]]
        xs = [(g, v) for g, v in xs if v.op != 'never']
        return phi(xs) if xs else mk('never')
    if t.op in ('some', 'ok'):
        return mk('never')
    if t.op == 'residual':
        return t.a[0]
    return mk('err', t)


def other(t):
    """a second, different element in a comparison"""
    if t.op == 'agg':
        return mk('agg', t.a[0], tuple((n, other(v)) for n, v in t.a[1]))
    return mk('other', t)


def elem(t):
    o = t.op
    if o == 'mapped':
        return t.a[1]
    if o == 'flatmapped':
        return elem(t.a[1])
    if o == 'zip':
        a, b = skipped(t.a[0]), skipped(t.a[1])
        m = 0 if a is None or b is None else min(a, b)
        return mk('agg', 'tuple', (('0', after(elem(t.a[0]), (a or 0) - m)), ('1', after(elem(t.a[1]), (b or 0) - m))))
    if o == 'enumerate':
        return mk('agg', 'tuple', (('0', mk('idx', t.a[0])), ('1', elem(t.a[0]))))
    if o == 'chain':
        return phi([(TRUE, elem(t.a[0])), (TRUE, elem(t.a[1]))])
    if o in ('filtered', 'rev', 'taken', 'sorted', 'some', 'ok', 'stepby'):
        return elem(t.a[0])
    if o == 'phi':
        xs = [(g, elem(v)) for g, v in t.a[0]]
        return phi(xs)
    if o == 'agg' and t.a[0] == 'array':
        return phi([(TRUE, v) for _, v in t.a[1]])
    if o == 'agg' and t.a[0] == 'repeat':
        return t.a[1][0][1]
    if o == 'agg' and t.a[0].split('::')[-1] in ('Range', 'RangeInclusive', 'RangeFrom'):
        v = full_range(t)
        if v is not None:
            return mk('idx', v)
        return mk('rangeidx', t)
    if o == 'mutref':
        return elem(t.a[1])
    if o == 'never':
        return t
    return mk('elem', t)


def skipped(t):
    """how many leading elements a sequence leaves out; None if not constant"""
    k = 0
    while True:
        t = strip_mut(t)
        if t.op == 'mapped':
            t = t.a[0]
        elif t.op == 'taken' and t.a[1] == 'skip':
            n = _intval(t.a[2])
            if not n:
                return None
            k += n[0]
            t = t.a[0]
        elif t.op == 'index' and t.a[1].op == 'agg' and t.a[1].a[0].split('::')[-1] == 'RangeFrom':
            n = _intval(t.a[1].a[1][0][1])
            if not n:
                return None
            k += n[0]
            t = t.a[0]
        else:
            return k


def after(t, k):
    """the element k places after t in the same sequence"""
    if k == 0:
        return t
    if t.op == 'field':
        return field(after(t.a[0], k), t.a[1])
    if t.op == 'agg':
        return mk('agg', t.a[0], tuple((n, after(v, k)) for n, v in t.a[1]))
    if t.op == 'after':
        return mk('after', t.a[0], t.a[1] + k)
    if t.op in ('elem', 'idx', 'index'):
        return mk('after', t, k)
    return t


def full_range(t):
    """v if t is the range 0..len(v)"""
    if t.op == 'agg' and t.a[0].split('::')[-1] == 'Range' and len(t.a[1]) == 2 and is_zero(t.a[1][0][1]):
        return _len_of(strip_mut(t.a[1][1][1]))
    return None


def each(x):
    v = full_range(x)
    if v is not None:
        return mk('each', mk('enumerate', v))
    return mk('each', x)


FLIP = {'Gt': 'Lt', 'Ge': 'Le'}
NEG = {'Lt': 'Ge', 'Le': 'Gt', 'Gt': 'Le', 'Ge': 'Lt', 'Eq': 'Ne', 'Ne': 'Eq'}
CMPCALL = {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge', 'eq': 'Eq', 'ne': 'Ne'}


def cmp_term(op, a, b):
    if op in FLIP:
        op, a, b = FLIP[op], b, a
    if op in ('Eq', 'Ne') and b.id < a.id:
        a, b = b, a
    return mk('bin', op, a, b)


def strip_mut(t):
    return t.a[1] if t.op == 'mutref' else t


def is_zero(t):
    return t.op == 'const' and re.match(r'0(_[ui]\w+)?$|0_?f?\d*$', t.a[0]) is not None


def is_one(t):
    return t.op == 'const' and re.match(r'1(_[ui]\w+)$', t.a[0]) is not None


def atom(t, pol):
    """normalised guard atom for boolean term t having value pol. -> dnf"""
    t = strip_mut(t)
    if t.op == 'un' and t.a[0] == 'Not':
        return atom(t.a[1], not pol)
    if t.op == 'const':
        if (t.a[0] == 'true') == pol:
            return TRUE
        return frozenset()
    if t.op == 'phi':
        # boolean computed by branches: expand
        out = set()
        ok = True
        for g, v in t.a[0]:
            if v.op == 'rec':
                ok = False
                break
            for x in dnf_and(g, atom(v, pol)):
                out.add(x)
        if ok and len(out) <= 12:
            return frozenset(out)
        return frozenset([frozenset([mk('bool', t, pol)])])
    if t.op == 'bin' and t.a[0] in ('BitOr', 'BitAnd', 'BitXor') and boolish(t.a[1]) and boolish(t.a[2]):
        x, y = t.a[1], t.a[2]
        if t.a[0] == 'BitXor':
            return frozenset(dnf_and(atom(x, True), atom(y, not pol)) | dnf_and(atom(x, False), atom(y, pol)))
        if (t.a[0] == 'BitOr') == pol:
            return frozenset(atom(x, pol) | atom(y, pol))
        return dnf_and(atom(x, pol), atom(y, pol))
    if t.op == 'bin' and t.a[0] in ('Eq', 'Ne') and t.a[2].op == 'const' and t.a[2].a[0] in ('true', 'false'):
        return atom(t.a[1], ((t.a[0] == 'Eq') == (t.a[2].a[0] == 'true')) == pol)
    if t.op == 'bin' and t.a[0] in ('Eq', 'Ne') and t.a[1].op == 'const' and t.a[1].a[0] in ('true', 'false'):
        return atom(t.a[2], ((t.a[0] == 'Eq') == (t.a[1].a[0] == 'true')) == pol)
    if t.op == 'bin' and t.a[0] in NEG:
        op, a, b = t.a
        if not pol:
            op = NEG[op]
        ka, kb = _intval(a), _intval(b)
        if ka and kb:
            x, y = ka[0], kb[0]
            r = {'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y, 'Eq': x == y, 'Ne': x != y}[op]
            return TRUE if r else frozenset()
        return frozenset([frozenset([_cmp_norm(op, a, b)])])
    if t.op == 'call':
        nm = t.a[0].split('::')[-1]
        ar = t.a[1]
        if nm in CMPCALL and len(ar) == 2:
            op = CMPCALL[nm]
            if not pol:
                op = NEG[op]
            return frozenset([frozenset([_cmp_norm(op, ar[0], ar[1])])])
        if nm in ('is_some', 'is_none', 'is_ok', 'is_err', 'is_ready', 'is_pending') and len(ar) == 1:
            v = {'is_ready': ('Ready', 'Pending'), 'is_pending': ('Pending', 'Ready'), 'is_some': ('Some', 'None'), 'is_none': ('None', 'Some'), 'is_ok': ('Ok', 'Err'),
                 'is_err': ('Err', 'Ok')}[nm][0 if pol else 1]
            return is_dnf(ar[0], v)
        if nm == 'is_empty' and len(ar) == 1:
            return frozenset([frozenset([mk('empty' if pol else 'nonempty', ar[0])])])
    return frozenset([frozenset([mk('bool', t, pol)])])


def signed(x, ty):
    """switch values are written unsigned"""
    m = re.match(r'i(8|16|32|64|128|size)$', ty or '')
    if m and re.match(r'\d+$', str(x)):
        n = int(m.group(1)) if m.group(1) != 'size' else 64
        return int(x) - (1 << n) if int(x) >= 1 << (n - 1) else x
    return x


NOTENUM = ('tuple', 'array', 'repeat', 'closure')


def is_dnf(subj, nm):
    """guard of `subj is variant nm`; folded when the variant of subj is known"""
    subj = strip_mut(subj)
    while subj.op == 'optmap' and nm in ('Some', 'None', 'Ok', 'Err', 'Ready', 'Pending'):
        subj = strip_mut(subj.a[0])
    if subj.op == 'some':
        return TRUE if nm == 'Some' else frozenset()
    if subj.op == 'ok':
        return TRUE if nm in ('Ok', 'Ready') else frozenset()
    if subj.op == 'await' and nm in ('Ready', 'Pending'):
        return frozenset([frozenset([mk('ready', subj, nm)])])
    if nm in ('Less', 'Equal', 'Greater'):
        c = strip_mut(subj.a[0]) if subj.op == 'payload' else subj
        if c.op == 'call' and c.a[0].split('::')[-1] in ('cmp', 'partial_cmp', 'total_cmp') and len(c.a[1]) == 2:
            return atom(mk('bin', {'Less': 'Lt', 'Equal': 'Eq', 'Greater': 'Gt'}[nm], strip_mut(c.a[1][0]), strip_mut(c.a[1][1])), True)
    if subj.op == 'agg' and '::' in subj.a[0] and subj.a[0] not in NOTENUM:
        return TRUE if subj.a[0].split('::')[-1] == nm else frozenset()
    if subj.op == 'phi' and all(v.op in ('some', 'ok') or (v.op == 'agg' and '::' in v.a[0]) for _, v in subj.a[0]):
        out = set()
        for g, v in subj.a[0]:
            out |= dnf_and(g, is_dnf(v, nm))
        if len(out) <= 12:
            return frozenset(simplify_dnf(out))
    return frozenset([frozenset([mk('is', subj, nm)])])


def boolish(t):
    t = strip_mut(t)
    if t.op == 'bin':
        return t.a[0] in NEG or (t.a[0] in ('BitOr', 'BitAnd', 'BitXor') and boolish(t.a[1]) and boolish(t.a[2]))
    if t.op == 'un':
        return t.a[0] == 'Not' and boolish(t.a[1])
    if t.op == 'const':
        return t.a[0] in ('true', 'false')
    if t.op == 'call':
        return t.a[0].split('::')[-1] in ('is_some', 'is_none', 'is_ok', 'is_err', 'is_empty', 'contains', 'contains_key') or t.a[0].split('::')[-1] in CMPCALL
    if t.op == 'phi':
        return all(boolish(v) for _, v in t.a[0])
    return False


def _len_of(t):
    if t.op == 'len':
        return t.a[0]
    if t.op == 'call' and t.a[0].split('::')[-1] == 'len' and len(t.a[1]) == 1:
        return t.a[1][0]
    return None


def _cmp_norm(op, a, b):
    c = cmp_term(op, a, b)
    op, a, b = c.a
    la, lb = _len_of(a), _len_of(b)
    if op == 'Eq' and la is not None and is_zero(b):
        return mk('empty', la)
    if op == 'Eq' and lb is not None and is_zero(a):
        return mk('empty', lb)
    if op == 'Ne' and la is not None and is_zero(b):
        return mk('nonempty', la)
    if op == 'Ne' and lb is not None and is_zero(a):
        return mk('nonempty', lb)
    if op == 'Lt' and is_zero(a) and lb is not None:
        return mk('nonempty', lb)
    if op == 'Lt' and la is not None and is_one(b):
        return mk('empty', la)
    if op == 'Le' and is_one(a) and lb is not None:
        return mk('nonempty', lb)
    if op == 'Le' and la is not None and is_zero(b):
        return mk('empty', la)
    # integer  a <= k  ==  a < k+1
    for (x, y, side) in ((a, b, 'r'), (b, a, 'l')):
        pass
    if op == 'Le':
        k = _intval(b)
        if k is not None:
            return mk('bin', 'Lt', a, const('%d_%s' % (k[0] + 1, k[1])))
        k = _intval(a)
        if k is not None:
            return mk('bin', 'Lt', const('%d_%s' % (k[0] - 1, k[1])), b)
    return c


def fold_int(op, x, y):
    if op == 'Add':
        return x + y
    if op == 'Sub':
        return x - y
    if op == 'Mul':
        return x * y
    if op == 'Shl' and 0 <= y < 64:
        return (x << y) & (2 ** 64 - 1)
    if op == 'Shr' and 0 <= y < 64:
        return x >> y
    if op == 'BitOr':
        return x | y
    if op == 'BitAnd':
        return x & y
    if op == 'BitXor':
        return x ^ y
    return None


def _intval(t):
    if t.op == 'const':
        m = re.match(r'(-?\d+)_([ui](?:\d+|size))$', t.a[0])
        if m:
            return int(m.group(1)), m.group(2)
    return None


# ------------------------------------------------------------------ CFG ----

class CFG:
    def __init__(self, body):
        self.body = body
        blocks = body.blocks
        succ = {}
        self.labels = {}     # (a, b) -> list of edge labels for switch
        for i, b in blocks.items():
            t = b.term
            if t is None or b.cleanup:
                succ[i] = []
                continue
            if t.kind == 'switch':
                succ[i] = []
                for v, x in t.targets:
                    if x not in succ[i]:
                        succ[i].append(x)
            else:
                succ[i] = list(t.targets)
        # unreachable targets and diverging blocks are pruned
        exits = {i for i, b in blocks.items() if b.term is not None and b.term.kind == 'return' and not b.cleanup}
        self.exits = exits
        reach = self._reach_from(0, succ)
        pred = {}
        for a in reach:
            for x in succ[a]:
                pred.setdefault(x, []).append(a)
        good = set()
        work = [e for e in exits if e in reach]
        # blocks on cycles count as "can go on"
        cyc = self._cyclic(reach, succ)
        self.inf = set()
        work2 = list(work)
        while work2:
            x = work2.pop()
            if x in good:
                continue
            good.add(x)
            work2.extend(pred.get(x, []))
        self.returning = set(good)
        rest = [c for c in cyc if c not in good]
        self.inf = set(rest)
        work2 = rest
        while work2:
            x = work2.pop()
            if x in good:
                continue
            good.add(x)
            work2.extend(pred.get(x, []))
        self.nodes = good if 0 in good else set(reach)
        self.succ = {a: [x for x in succ[a] if x in self.nodes] for a in self.nodes}
        self.full_succ = succ
        self.reach = reach
        self.pred = {a: [] for a in self.nodes}
        for a in self.nodes:
            for x in self.succ[a]:
                self.pred[x].append(a)
        self.full_pred = {}
        for a in reach:
            for x in succ[a]:
                self.full_pred.setdefault(x, []).append(a)
        self._dom = self._pdom = self._fwd = self._rdom = None
        self._cd = None

    @staticmethod
    def _reach_from(s, succ):
        seen, w = set(), [s]
        while w:
            x = w.pop()
            if x in seen:
                continue
            seen.add(x)
            w.extend(succ.get(x, []))
        return seen

    @staticmethod
    def _cyclic(nodes, succ):
        idx, low, st, on, out, c = {}, {}, [], set(), set(), [0]

        def visit(v):
            stack = [(v, iter(succ[v]))]
            idx[v] = low[v] = c[0]
            c[0] += 1
            st.append(v)
            on.add(v)
            while stack:
                u, it = stack[-1]
                adv = False
                for w in it:
                    if w not in nodes:
                        continue
                    if w not in idx:
                        idx[w] = low[w] = c[0]
                        c[0] += 1
                        st.append(w)
                        on.add(w)
                        stack.append((w, iter(succ[w])))
                        adv = True
                        break
                    elif w in on:
                        low[u] = min(low[u], idx[w])
                if adv:
                    continue
                stack.pop()
                if stack:
                    low[stack[-1][0]] = min(low[stack[-1][0]], low[u])
                if low[u] == idx[u]:
                    comp = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        comp.append(w)
                        if w == u:
                            break
                    if len(comp) > 1 or u in succ[u]:
                        out.update(comp)
        for v in nodes:
            if v not in idx:
                visit(v)
        return out

    def doms(self):
        if self._dom is None:
            self._dom = self._domsets(0, self.nodes, self.pred)
        return self._dom

    @staticmethod
    def _domsets(entry, nodes, pred):
        allb = set(nodes)
        dom = {n: set(allb) for n in nodes}
        dom[entry] = {entry}
        order = sorted(nodes)
        ch = True
        while ch:
            ch = False
            for n in order:
                if n == entry:
                    continue
                ps = [dom[p] for p in pred.get(n, []) if p in dom]
                new = set.intersection(*ps) if ps else set()
                new = new | {n}
                if new != dom[n]:
                    dom[n] = new
                    ch = True
        return dom

    def pdoms(self):
        """post-dominator sets; EXIT = -1"""
        if self._pdom is None:
            EX = -1
            nodes = set(self.nodes) | {EX}
            succ = {a: list(self.succ[a]) for a in self.nodes}
            for e in self.exits & self.nodes:
                succ[e] = succ[e] + [EX]
            for e in self.inf & self.nodes:
                if e not in self.returning:
                    succ[e] = succ[e] + [EX]
            for a in self.nodes:
                if not succ[a]:
                    succ[a] = [EX]
            pd = {n: set(nodes) for n in nodes}
            pd[EX] = {EX}
            order = sorted(self.nodes, reverse=True)
            ch = True
            while ch:
                ch = False
                for n in order:
                    new = set.intersection(*[pd[s] for s in succ[n]]) | {n}
                    if new != pd[n]:
                        pd[n] = new
                        ch = True
            self._pdom = pd
        return self._pdom

    def cdeps(self):
        """block -> set of (branch block, successor)"""
        if self._cd is None:
            pd = self.pdoms()
            cd = {n: set() for n in self.nodes}
            for a in self.nodes:
                ss = self.succ[a]
                if len(ss) < 2:
                    continue
                for s in ss:
                    # nodes postdominating s but not strictly postdominating a
                    for n in pd[s]:
                        if n == -1:
                            continue
                        if n == a or n not in pd[a]:
                            cd[n].add((a, s))
            self._cd = cd
        return self._cd

    def fwd(self, a):
        """blocks reachable from a without following back edges"""
        if self._fwd is None:
            self._fwd = {}
        r = self._fwd.get(a)
        if r is None:
            dom = self.rdoms()
            seen, w = set(), [a]
            while w:
                x = w.pop()
                for y in self.full_succ.get(x, []):
                    if y in dom.get(x, ()):
                        continue
                    if y not in seen:
                        seen.add(y)
                        w.append(y)
            r = self._fwd[a] = seen
        return r

    def loops(self):
        """{header: blocks of the natural loop}"""
        if getattr(self, '_loops', None) is None:
            dom, out = self.rdoms(), {}
            for x in self.reach:
                for h in self.full_succ.get(x, []):
                    if h in dom.get(x, ()):
                        body = out.setdefault(h, {h})
                        w = [x]
                        while w:
                            y = w.pop()
                            if y not in body:
                                body.add(y)
                                w += self.full_pred.get(y, [])
            self._loops = out
        return self._loops

    def later(self, a, b):
        """b can come after a in the same turn of every loop that holds both"""
        if b in self.fwd(a):
            return True
        return any(a in body and b not in body and b in self.fwd(h) for h, body in self.loops().items())

    def rdoms(self):
        if self._rdom is None:
            self._rdom = self._domsets(0, self.reach, self.full_pred)
        return self._rdom

    def dominates(self, a, b):
        return a in self.doms().get(b, ())


class Event:
    __slots__ = ('kind', 'name', 'full', 'args', 'ret', 'lval', 'val', 'guard', 'chain', 'span', 'body', 'dest', 'inlined', 'targ')

    def __init__(self, kind):
        self.kind = kind
        self.name = self.full = ''
        self.args = ()
        self.ret = self.lval = self.val = None
        self.guard = TRUE
        self.chain = ()
        self.span = None
        self.body = None
        self.dest = None
        self.inlined = False

    def must(self):
        return must_atoms(self.guard)

    def where(self):
        sp = self.span
        return '%s:%s' % (sp[0], sp[1]) if sp else (self.body.name if self.body else '?')

    def __repr__(self):
        if self.kind in ('write', 'set'):
            return self.kind + ' %s := %s  if %s' % (show(self.lval), show(self.val), show(self.guard))
        if self.kind == 'return':
            return 'return %s if %s' % (show(self.val), show(self.guard))
        return '%s %s(%s) if %s' % (self.kind, self.name, ', '.join(show(x) for x in self.args), show(self.guard))


# names (Type::method or Trait::method) whose result is their first argument
TRANSPARENT = set('''
Deref::deref DerefMut::deref_mut Clone::clone Borrow::borrow BorrowMut::borrow_mut AsRef::as_ref AsMut::as_mut
Into::into ToOwned::to_owned IntoIterator::into_iter Arc::new Box::new Rc::new Box::pin
slice::iter slice::iter_mut slice::into_vec slice::to_vec Vec::as_slice Vec::as_mut_slice Vec::into_boxed_slice Vec::into_iter
Option::as_ref Option::as_mut Option::cloned Option::copied Option::as_deref Option::as_deref_mut Result::as_ref Result::as_mut
Result::ok Option::ok_or Option::ok_or_else Result::map_err
Iterator::cloned Iterator::copied Iterator::by_ref Iterator::collect Iterator::peekable Iterator::fuse
ParallelIterator::collect ParallelIterator::cloned ParallelIterator::copied
Try::branch Pin::new Pin::new_unchecked Pin::get_mut Pin::as_mut Pin::get_unchecked_mut Pin::into_inner IntoFuture::into_future
IntoParallelIterator::into_par_iter IntoParallelRefIterator::par_iter IntoParallelRefMutIterator::par_iter_mut
Arc::as_ref Vec::iter Vec::iter_mut HashMap::iter HashMap::iter_mut HashMap::into_iter VecDeque::iter VecDeque::iter_mut
BinaryHeap::iter BinaryHeap::into_iter SmallVec::iter SmallVec::into_vec BinaryHeap::into_vec
SmallVec::as_slice SmallVec::drain BinaryHeap::drain HashMap::drain VecDeque::drain
String::as_str String::as_bytes ToString::to_string str::to_string String::from_utf8 str::as_bytes str::to_owned slice::as_ref
mut_ptr::as_ref const_ptr::as_ref mut_ptr::as_mut NonNull::as_ptr Unique::as_ptr Box::into_raw Box::from_raw
TryFrom::try_from TryInto::try_into From::from IndexedParallelIterator::with_min_len Vec::from
Mutex::new RefCell::new RwLock::new Cell::new AtomicUsize::new AtomicPtr::new ptr::eq_ Option::take_ Vec::into_iter
'''.split())

PAYLOAD = set('Option::unwrap Option::expect Result::unwrap Result::expect Option::unwrap_unchecked Result::unwrap_unchecked Option::unwrap_or_default Result::unwrap_or_default Option::flatten Result::flatten'.split())
OKWRAP = set('Mutex::lock RwLock::read RwLock::write Mutex::get_mut'.split())

ITER_HOF = {'map': 'map', 'for_each': 'for_each', 'filter': 'filter', 'flat_map': 'flat_map', 'filter_map': 'filter_map',
            'fold': 'fold', 'reduce': 'reduce', 'any': 'pred', 'all': 'pred', 'position': 'pred', 'find': 'find',
            'max_by': 'sel', 'min_by': 'sel', 'max_by_key': 'sel', 'min_by_key': 'sel', 'try_for_each': 'for_each',
            'inspect': 'for_each', 'take_while': 'filter', 'skip_while': 'filter', 'map_while': 'filter_map', 'try_fold': 'fold',
            'partition': 'filter', 'sum': 'sum', 'find_map': 'filter_map', 'map_init': 'map', 'scan': 'other'}


SIZES = {'usize': 8, 'u64': 8, 'i64': 8, 'isize': 8, 'f64': 8, 'u32': 4, 'i32': 4, 'f32': 4, 'u16': 2, 'i16': 2, 'u8': 1, 'i8': 1, 'bool': 1}
ALLOC = set('''Vec::new Vec::with_capacity HashMap::new HashMap::with_capacity HashMap::with_hasher BinaryHeap::new
BinaryHeap::with_capacity VecDeque::new VecDeque::with_capacity HashSet::new String::new SmallVec::new SmallVec::with_capacity
HashMap::with_capacity_and_hasher HashSet::with_capacity BTreeMap::new alloc::exchange_malloc Simd::splat'''.split())


class Engine:
    def __init__(self, bodies, srcinfo, opaque=(), max_depth=9, ret_limit=6000):
        self.src = srcinfo
        self.bodies = bodies
        self.opaque = set(opaque)
        self.max_depth = max_depth
        self.ret_limit = ret_limit
        self.by_method = {}
        self.closures = {}
        self.free = {}
        self.promoted = {}
        self.cfgs = {}
        self.frames = {}
        self.callee_cache = {}
        for b in bodies:
            self._index(b)

    def clone_with(self, opaque=(), max_depth=None):
        e = Engine.__new__(Engine)
        e.__dict__.update(self.__dict__)
        e.opaque = set(opaque)
        e.frames = {}
        if max_depth is not None:
            e.max_depth = max_depth
        return e

    # ---- indexing -------------------------------------------------------
    def _index(self, b):
        if b.kind == 'promoted':
            self.promoted[(b.crate, b.name)] = b
            return
        if b.kind == 'const':
            self.promoted[(b.crate, b.name)] = b
            self.promoted[(b.crate, 'const ' + b.name.split('::')[-1])] = b
            return
        nm = b.name
        m = re.search(r'\{(closure)#\d+\}$', nm)
        if m:
            b.is_closure = True
            if b.params:
                mm = re.search(r'\[(?:closure|generator|async [a-z ]+)@(.*?:\d+:\d+: \d+:\d+)', b.params[0][1])
                if mm:
                    b.closure_span = mm.group(1)
                    self.closures.setdefault(b.closure_span, []).append(b)
            b.owner = None
            b.method = nm.split('::')[-1]
            return
        # last impl span
        ims = list(re.finditer(r'<impl at ([^<>]*?:\d+:\d+: \d+:\d+)>', nm))
        tail = nm
        if ims:
            hdr = self.src.impl_header(ims[-1].group(1))
            tail = nm[ims[-1].end():].lstrip(':')
            b.owner = hdr or ('?', None)
            if '$' in b.owner[0]:
                # impl written by a macro: the type is that of the receiver
                b.owner = (base_ty(re.sub(r'^(&|mut )+', '', b.params[0][1])) if b.params else '?', b.owner[1])
            b.method = tail.split('::')[-1]
            if '::' in tail:   # fn nested inside a method / ctor shim
                b.owner = None
                self.free.setdefault(b.method, []).append(b)
                return
            self.by_method.setdefault((b.owner[0], b.method), []).append(b)
        else:
            segs = strip_generics(nm).split('::')
            b.method = segs[-1]
            if len(segs) >= 2 and segs[-2][:1].isupper():
                b.owner = (segs[-2], segs[-2])
                b.trait_default = True
                self.by_method.setdefault((segs[-2], segs[-1]), []).append(b)
            else:
                b.owner = None
                self.free.setdefault(segs[-1], []).append(b)

    def find(self, owner, method, trait=None, crate=None):
        """bodies for Owner::method."""
        r = []
        for b in self.by_method.get((owner, method), []):
            if trait is not None and b.owner[1] != trait:
                continue
            if crate is not None and b.crate != crate:
                continue
            r.append(b)
        return r

    def find_free(self, name, crate=None, path=None):
        return [b for b in self.free.get(name, []) if (crate is None or b.crate == crate) and (path is None or path in b.name)]

    def cfg(self, body):
        c = self.cfgs.get(id(body))
        if c is None:
            c = self.cfgs[id(body)] = CFG(body)
        return c

    # ---- callee naming / resolution ---------------------------------------
    def callee(self, text, crate):
        """-> (canonical name, self type text|None, trait|None, method, in-crate body candidates)"""
        k = (text, crate)
        r = self.callee_cache.get(k)
        if r is None:
            r = self.callee_cache[k] = self._callee(text, crate)
        return r

    def _callee(self, text, crate):
        t = text.strip()
        targs = None
        if t.startswith('<'):
            k = match_close(t, 0)
            inner = t[1:k]
            rest = t[k + 1:].lstrip(':')
            meth = strip_generics(rest).split('::')[-1]
            selfty, trait = _split_as(inner)
            if trait is not None:
                tb = base_ty(trait)
                if tb == '__Deref':     # the name lazy_static imports it by
                    tb = 'Deref'
                sb = base_ty(selfty)
                cands = [b for b in self.by_method.get((sb, meth), []) if b.owner[1] == tb and not getattr(b, 'trait_default', False)]
                if not cands and sb == 'slice':
                    cands = [b for b in self.by_method.get((sb, meth), []) if b.owner[1] == tb]
                name = tb + '::' + meth
                return (name, selfty, tb, meth, cands)
            sb = base_ty(inner)
            return (sb + '::' + meth, inner, None, meth, self.by_method.get((sb, meth), []))
        # inherent / free
        m = re.search(r'<impl ([^<>]*(?:<.*>)?[^<>]*)>::(\w+)(?:::<.*>)?$', t)
        if m and '<impl at' not in t:
            sb = base_ty(m.group(1))
            pre = t[:t.index('<impl ')].rstrip(':').split('::')[-1]
            if sb in ('slice',):
                nm = 'slice::' + m.group(2)
            elif m.group(1).startswith('*'):
                nm = pre + '::' + m.group(2)
            else:
                nm = sb + '::' + m.group(2)
            return (nm, m.group(1), None, m.group(2), [])
        s = strip_generics(t)
        segs = s.split('::')
        meth = segs[-1]
        if len(segs) >= 2:
            own = segs[-2]
            external = segs[0] in ('std', 'core', 'alloc', 'rayon', 'hashbrown', 'smallvec', 'crossbeam_channel', 'rand', 'protobuf',
                                   'tokio', 'warp', 'hyper', 'http', 'serde', 'serde_json', 'regex', 'futures', 'log', 'fxhash') \
                and '::'.join(segs[:2]) not in self.modules(crate)
            cands = []
            if not external:
                cands = [b for b in self.by_method.get((own, meth), [])
                         if b.crate == crate or segs[0] == b.crate]
                if not cands and not own[:1].isupper():
                    cands = [b for b in self.free.get(meth, []) if (b.crate == crate or segs[0] == b.crate)
                             and (b.name.split('::')[-2:-1] == [own] or b.name == meth or own == b.crate)]
                if not cands and '{' not in meth and not own[:1].isupper():
                    cands = [b for b in self.free.get(meth, []) if b.crate == crate and b.name.endswith(own + '::' + meth)]
                if not cands:
                    cands = [b for b in self.free.get(meth, []) if b.crate == crate and strip_generics(b.name).endswith('::' + meth)
                             and b.method == meth and '<impl' in b.name and own[:1].islower()]
            return (own + '::' + meth, s, None, meth, cands)
        cands = [b for b in self.free.get(meth, []) if b.crate == crate]
        return (meth, None, None, meth, cands)

    def modules(self, crate):
        """modules of the crate (two names deep), which may be named like another crate"""
        if not hasattr(self, '_mods'):
            self._mods = {}
        m = self._mods.get(crate)
        if m is None:
            m = set()
            for b in self.bodies:
                p = b.name.split('::')
                if b.crate == crate and len(p) > 2 and re.fullmatch(r'[a-z_0-9]+', p[1]) and p[1] != '_':
                    m.add('::'.join(p[:2]))
            self._mods[crate] = m
        return m

    def pick(self, cands, argtypes, enclosing=None):
        if len(cands) == 1:
            return cands[0]
        if not cands:
            return None
        best = []
        for b in cands:
            pts = [re.sub(r"'\w+ ", '', t) for _, t in b.params]
            if [re.sub(r"'\w+ ", '', t or '') for t in argtypes] == pts:
                best.append(b)
        if len(best) == 1:
            return best[0]
        best = []
        for b in cands:
            if len(b.params) == len(argtypes) and all(base_ty(t) == base_ty(a or '') or re.fullmatch(r'[A-Z]\w?', t) for (_, t), a in zip(b.params, argtypes)):
                best.append(b)
        if len(best) == 1:
            return best[0]
        return None

    def closure_body(self, head, enclosing):
        m = re.search(r'(?:closure|generator|async [a-z ]+)@(.*?:\d+:\d+: \d+:\d+)', head)
        if not m:
            return None
        c = self.closures.get(m.group(1), [])
        if len(c) == 1:
            return c[0]
        if len(c) > 1:
            c2 = [b for b in c if b.name.startswith(enclosing.name + '::{') and b.crate == enclosing.crate]
            if len(c2) == 1:
                return c2[0]
            c3 = [b for b in c2 if b.name.count('{closure') == enclosing.name.count('{closure') + 1]
            if len(c3) >= 1:
                # instances of one macro share the place of the closure: it follows the function it is written in
                o = self.order()
                me = o.get(id(enclosing), -1)
                later = [b for b in c3 if o.get(id(b), -1) > me]
                return min(later, key=lambda b: o[id(b)]) if later else c3[0]
        return None

    def closure_key(self, c):
        same = [b for b in self.closures.get(c.closure_span, []) if b.name == c.name]
        return c.name if len(same) < 2 else '%s~%d' % (c.name, same.index(c))

    def order(self):
        if getattr(self, '_order', None) is None:
            self._order = {id(b): i for i, b in enumerate(self.bodies)}
        return self._order

    # ---- frames -----------------------------------------------------------
    def async_frames(self, body):
        """frames of the async blocks a function makes (its own body, if it is async), with what they capture"""
        out, seen = [], set()
        fr = self.frame(body)
        vals = [fr.ret()]
        for ev in fr.events(drops=False):
            if ev.kind == 'call':
                vals += list(ev.args)
        for v in vals:
            for x in subterms(v):
                if x.op == 'closure' and ('async ' in x.a[0] or 'generator@' in x.a[0]) and x not in seen:
                    seen.add(x)
                    cb = fr._closure_by_name(x)
                    if cb is not None:
                        ps = [x] + [mk('cx')] * (len(cb.params) - 1)
                        out.append(self.frame(cb, tuple(ps), (body,)))
        return out

    def frame(self, body, args=None, stack=()):
        if args is None:
            args = tuple(mk('param', i, body.debug.get(n, 'arg%d' % i)) for i, (n, _) in enumerate(body.params))
        key = (id(body), args, len(stack) >= self.max_depth)
        f = self.frames.get(key)
        if f is None:
            f = Frame(self, body, args, stack)
            self.frames[key] = f
        return f

    def events(self, body, args=None, **kw):
        return self.frame(body, args).events(**kw)


def _split_as(inner):
    depth = 0
    i = 0
    pos = None
    while i < len(inner):
        c = inner[i]
        if c == '-' and inner[i + 1:i + 2] == '>':
            i += 2
            continue
        if c in '<([{':
            depth += 1
        elif c in '>)]}':
            depth -= 1
        elif depth == 0 and inner.startswith(' as ', i):
            pos = i
        i += 1
    if pos is None:
        return inner, None
    return inner[:pos], inner[pos + 4:]


INTBITS = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'u64': 64, 'i64': 64, 'usize': 64, 'isize': 64, 'u128': 128, 'i128': 128}
SCALAR = re.compile(r'(u8|u16|u32|u64|usize|i8|i16|i32|i64|isize|f32|f64|bool)$')


class Frame:
    def __init__(self, eng, body, args, stack):
        self.e, self.body, self.args = eng, body, args
        self.stack = stack + (body,)
        self.cfg = eng.cfg(body)
        self.memo = {}
        self.active = set()
        self.calls = {}       # block -> (ret term, name, args, subframes)
        self._guards = {}
        self._gact = set()
        self._ret = None
        self._ret_busy = False
        self._defs = None
        self._opa = {}
        self._adv = None
        self._rd = {}
        self._events = None
        self.param_of = {n: i for i, (n, _) in enumerate(body.params)}

    # ---- definitions --------------------------------------------------
    def defs(self):
        """local -> list of (block, idx) ; idx = -1 for call terminators; partial writes kept separately"""
        if self._defs is None:
            whole, part, mutref = {}, {}, {}
            for bi in self.cfg.reach:
                b = self.body.blocks[bi]
                if b.cleanup:
                    continue
                for si, s in enumerate(b.stmts):
                    if s.kind == 'assign':
                        l, pr = s.place
                        if not pr:
                            whole.setdefault(l, []).append((bi, si))
                        elif pr[0][0] == 'field':
                            part.setdefault(l, []).append((bi, si, pr))
                        if s.rv[0] == 'mutref' and not s.rv[1][1]:
                            mutref.setdefault(s.rv[1][0], []).append((bi, si))
                t = b.term
                oa = self._opassign(b)
                if oa is not None and SCALAR.match(self.body.locals.get(oa[1], '')):
                    whole.setdefault(oa[1], []).append((bi, -1))
                    self._opa[(oa[1], bi)] = oa
                    if mutref.get(oa[1]):
                        mutref[oa[1]] = [x for x in mutref[oa[1]] if x[0] != bi]
                        if not mutref[oa[1]]:
                            del mutref[oa[1]]
                if t is not None and t.dest is not None and t.kind in ('call', 'yield'):
                    l, pr = t.dest
                    if not pr:
                        whole.setdefault(l, []).append((bi, -1))
                    elif pr[0][0] == 'field':
                        part.setdefault(l, []).append((bi, -1, pr))
            self._defs = (whole, part, mutref)
        return self._defs

    def _refd(self, b, op):
        """the local a call argument is a fresh &mut of"""
        if op[0] != 'place' or op[1][1]:
            return None
        r = op[1][0]
        for _ in range(3):
            for s in reversed(b.stmts):
                if s.kind == 'assign' and s.place == (r, s.place[1]) and not s.place[1]:
                    if s.rv[0] == 'mutref':
                        l, pr = s.rv[1]
                        if not pr:
                            return l
                        if len(pr) == 1 and pr[0][0] == 'deref':
                            r = l
                            break
                    return None
            else:
                return None
        return None

    def _opassign(self, b):
        """(op, local, operand) if the block ends in `local op= operand` spelt as a trait call"""
        t = b.term
        if t is None or t.kind != 'call' or t.func[0] == 'op' or len(t.args) != 2:
            return None
        m = re.search(r' as (?:[\w:]+::)?(Add|Sub|Mul|Div|Rem)Assign[<>]', t.func[1])
        if not m:
            return None
        l = self._refd(b, t.args[0])
        return None if l is None else (m.group(1), l, t.args[1])

    def advanced(self):
        """local -> blocks in which an iterator is stepped once, outside any loop"""
        if self._adv is None:
            self._adv = {}
            for bi in self.cfg.reach:
                b = self.body.blocks[bi]
                t = b.term
                if b.cleanup or t is None or t.kind != 'call' or t.func[0] == 'op' or len(t.args) != 1 or not re.search(r'Iterator(<.*>)?>::next$', t.func[1]):
                    continue
                l = self._refd(b, t.args[0])
                if l is None or self._in_cycle(bi):
                    continue
                self._adv.setdefault(l, []).append(bi)
        return self._adv

    def _captured(self, bi, si):
        """the reference made by statement si is stored in a closure"""
        b = self.body.blocks[bi]
        if si >= len(b.stmts):
            return False
        r = b.stmts[si].place[0]
        return any(s.kind == 'assign' and s.rv[0] == 'closure' and any(o[0] == 'place' and o[1] == (r, o[1][1]) for _, o in s.rv[2]) for s in b.stmts[si:])

    def _in_cycle(self, bi):
        seen, st = set(), [bi]
        while st:
            for w in self.cfg.full_succ.get(st.pop(), []):
                if w == bi:
                    return True
                if w not in seen:
                    seen.add(w)
                    st.append(w)
        return False

    def reaching(self, local, bi, si):
        """def sites of `local` reaching the point before statement si of block bi
        (si == len(stmts) means before terminator).  'param' for function entry."""
        key = (local, bi, si)
        r = self._rd.get(key)
        if r is not None:
            return r
        whole = self.defs()[0].get(local, [])
        byb = {}
        for (b, s) in whole:
            byb.setdefault(b, []).append(s)
        out = []
        # within block
        cand = [s for s in byb.get(bi, []) if s != -1 and s < si]
        if cand:
            out = [(bi, max(cand))]
            self._rd[key] = out
            return out
        seen = set()
        work = list(self.cfg.full_pred.get(bi, []))
        if bi == 0:
            out.append('entry')
        while work:
            p = work.pop()
            if p in seen or self.body.blocks[p].cleanup:
                continue
            seen.add(p)
            ds = byb.get(p)
            if ds:
                d = -1 if -1 in ds else max(ds)
                out.append((p, d))
                continue
            if p == 0:
                out.append('entry')
            work.extend(self.cfg.full_pred.get(p, []))
        out = sorted(set(out), key=str)
        self._rd[key] = out
        return out

    def local_at(self, local, bi, si):
        ds = self.reaching(local, bi, si)
        xs = []
        for d in ds:
            if d == 'entry':
                if local in self.param_of:
                    xs.append((TRUE, self.args[self.param_of[local]]))
                continue
            if len(ds) > 1 and self.loop_carried(d, bi, si):
                xs.append((TRUE, mk('rec', self.body.name, self.body.debug.get(local, '_%d' % local))))
                continue
            xs.append((self._rel_guard(d[0], bi), self.def_value(local, d)))
        if len(xs) > 1:
            xs = [x for x in xs if x[0]] or xs[:1]
        if not xs:
            return mk('undef', self.body.name, local)
        if len(xs) == 1:
            r = xs[0][1]
        else:
            r = phi(xs)
        adv = self.advanced().get(local)
        if adv:
            n = sum(1 for a in adv if a != bi and self.cfg.dominates(a, bi))
            if n:
                r = mk('taken', r, 'skip', const('%d_usize' % n))
        if local in self.defs()[2] and SCALAR.match(self.body.locals.get(local, '')):
            # a scalar whose address was taken mutably: value may have been changed through the reference
            if any(True for _ in self.defs()[2][local]):
                r = phi([(TRUE, r), (TRUE, mk('rec', self.body.name, self.body.debug.get(local, '_%d' % local)))])
        return r

    def loop_carried(self, d, bi, si):
        db, ds = d
        if db == bi:
            return ds == -1 or ds >= si
        return bi not in self.cfg.fwd(db)

    def _var(self, local):
        return mk('var', self.body.name, self.body.debug.get(local, '_%d' % local))

    def _rel_guard(self, db, ub):
        if len(self.body.blocks) > 1500:
            return TRUE
        g = self.guard(db)
        u = must_atoms(self.guard(ub)) if ub != db else frozenset()
        if not u:
            return g
        return frozenset(x - u for x in g)

    def def_value(self, local, d):
        key = (local, d)
        if key in self.memo:
            return self.memo[key]
        if key in self.active:
            return mk('rec', self.body.name, self.body.debug.get(local, '_%d' % local))
        self.active.add(key)
        try:
            bi, si = d
            b = self.body.blocks[bi]
            if si == -1:
                if (local, bi) in self._opa:
                    op, l, x = self._opa[(local, bi)]
                    n = len(b.stmts)
                    v = self.binop(op, self.local_at(local, bi, n), strip_mut(self.operand(x, bi, n)))
                elif b.term.kind == 'yield':
                    v = mk('resume')
                else:
                    v = self.call_value(bi)
            else:
                s = b.stmts[si]
                v = self.rvalue(s.rv, bi, si, self.body.locals.get(local))
        finally:
            self.active.discard(key)
        self.memo[key] = v
        return v

    # ---- rvalues --------------------------------------------------------
    def operand(self, op, bi, si):
        if op[0] == 'place':
            return self.place(op[1], bi, si)
        if op[0] == 'fn':
            return mk('fnitem', op[1], self.body.crate)
        return self.constant(op[1])

    def constant(self, c):
        m = re.match(r'_$', c)
        if c == '()' or c == '':
            return const('()')
        mm = re.match(r'(.*)::promoted\[(\d+)\]$', c)
        if mm:
            nm = 'promoted[%s] in %s' % (mm.group(2), self.body.name)
            pb = self.e.promoted.get((self.body.crate, nm))
            if pb is not None:
                return self.e.frame(pb, (), self.stack[-3:]).ret()
            return const(c)
        seg = strip_generics(c).split('::')[-1]
        if re.match(r'[A-Z][A-Z0-9_]+$', seg) and ('const ' + seg) and (self.body.crate, 'const ' + seg) in self.e.promoted:
            pb = self.e.promoted[(self.body.crate, 'const ' + seg)]
            if pb.blocks:
                return self.e.frame(pb, (), self.stack[-3:]).ret()
        if re.match(r'[A-Za-z_<]', c) and '::' in c and not re.match(r'"', c) and not re.match(r'[iuf]\d+::|usize::|isize::|std::[iuf]\d+::|core::', c):
            if strip_generics(c).split('::')[-1][:1].islower():
                return mk('fnitem', c, self.body.crate)
        return const(c)

    def rvalue(self, rv, bi, si, ty=None):
        k = rv[0]
        if k == 'use':
            return self.operand(rv[1], bi, si)
        if k in ('ref', 'rawref'):
            return self.place(rv[1], bi, si)
        if k in ('mutref', 'rawmut'):
            v = self.place(rv[1], bi, si)
            l, pr = rv[1]
            if not pr and SCALAR.match(self.body.locals.get(l, '')):
                me = mk('rec', self.body.name, self.body.debug.get(l, '_%d' % l))
                if v.op == 'phi' and any(x is me for _, x in v.a[0]) and not self._captured(bi, si) and (l, bi) not in self._opa:
                    xs = [(g, x) for g, x in v.a[0] if x is not me]
                    v = phi(xs) if xs else v
                return mk('mutref', self._var(l), v)
            return v
        if k == 'cast':
            v = self.operand(rv[1], bi, si)
            if rv[3] not in ('IntToInt', 'IntToFloat', 'FloatToInt', 'FloatToFloat'):
                return v
            v = strip_mut(v)
            if rv[1][0] == 'place' and rv[3] in ('IntToInt', 'FloatToInt'):
                a, b = INTBITS.get((self.place_type(rv[1][1]) or '').strip()), INTBITS.get(rv[2].strip())
                t0, t1 = (self.place_type(rv[1][1]) or '').strip(), rv[2].strip()
                sign = a and b and a <= 16 and t0[0] != t1[0] and not (t0[0] == 'u' and b > a)
                if (rv[3] == 'FloatToInt' or sign or (a and b and b < a)) and v.op != 'const':
                    return mk('narrow', v, rv[2].strip())
            return v
        if k == 'bin':
            a, b = self.operand(rv[2], bi, si), self.operand(rv[3], bi, si)
            return self.binop(rv[1], a, b)
        if k == 'un':
            a = strip_mut(self.operand(rv[2], bi, si))
            if rv[1] == 'Not' and a.op == 'const' and a.a[0] in ('true', 'false'):
                return const('false' if a.a[0] == 'true' else 'true')
            return mk('un', rv[1], a)
        if k == 'len':
            return mk('len', self.place(rv[1], bi, si))
        if k == 'discr':
            pt = self.place_type(rv[1])
            return mk('discr', self.place(rv[1], bi, si), pt or '?')
        if k == 'agg':
            nm = rv[1]
            fs = tuple((n, self.operand(o, bi, si)) for n, o in rv[2])
            if nm not in ('tuple', 'array', 'repeat'):
                path = strip_generics(nm)
                segs = path.split('::')
                # enum variant vs struct
                if len(segs) >= 2 and segs[-2][:1].isupper():
                    nm = segs[-2] + '::' + segs[-1]
                    if fs and fs[0][0] == '0':
                        pass
                else:
                    nm = segs[-1]
                if nm in ('Option::Some',):
                    return mk('some', fs[0][1])
                if nm in ('Result::Ok', 'Poll::Ready'):
                    return mk('ok', fs[0][1])
            return mk('agg', nm, fs)
        if k == 'closure':
            cb = self.e.closure_body(rv[1], self.body)
            ups = tuple((n, self.operand(o, bi, si)) for n, o in rv[2])
            return mk('closure', rv[1].split(' (#')[0] + '#' + (self.e.closure_key(cb) if cb else '?'), ups)
        if k == 'nullary':
            return mk('nullary', rv[1], rv[2])
        return mk('unknown', str(rv)[:80])

    def binop(self, op, a, b):
        a, b = strip_mut(a), strip_mut(b)
        if op.startswith('Checked'):
            return mk('agg', 'tuple', (('0', self.binop(op[7:], a, b)), ('1', mk('overflow', op, a, b))))
        if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
            return cmp_term(op, a, b)
        ka, kb = _intval(a), _intval(b)
        if ka and kb:
            r = fold_int(op, ka[0], kb[0])
            if r is not None:
                return const('%d_%s' % (r, ka[1]))
        if op in ('Add', 'Mul', 'BitAnd', 'BitOr', 'BitXor') and b.id < a.id:
            a, b = b, a
        return mk('bin', op, a, b)

    def place_type(self, pl):
        l, pr = pl
        t = self.body.locals.get(l)
        for p in pr:
            if t is None:
                return None
            if p[0] == 'deref':
                t = deref_ty(t)
            elif p[0] == 'field':
                t = p[2]
            elif p[0] == 'down':
                pass
            else:
                m = re.match(r'\[(.*?)(; .*)?\]$', t)
                t = m.group(1) if m else None
        return t

    def place(self, pl, bi, si):
        l, pr = pl
        # partial definitions of a local aggregate's field
        if pr and pr[0][0] == 'field' and l in self.defs()[1]:
            idx = pr[0][1]
            parts = [(b, s) for (b, s, p) in self.defs()[1][l] if p[0][1] == idx and len(p) == 1]
            if parts:
                v = self.partial(l, idx, parts, bi, si)
                return self.project(v, pr[0][2], pr[1:], bi, si)
        v = self.local_at(l, bi, si)
        if not pr:
            return self.patched(l, v, bi, si)
        return self.project(v, self.body.locals.get(l), pr, bi, si)

    def patched(self, l, v, bi, si):
        """a local aggregate with the fields written one by one since it was made"""
        ps = self.defs()[1].get(l)
        if not ps or v.op != 'agg' or any(len(p) != 1 for _, _, p in ps) or variant_of(v) in ('Some', 'Ok', 'Err', 'None'):
            return v
        fs = list(v.a[1])
        for idx in sorted({p[0][1] for _, _, p in ps}):
            if idx >= len(fs):
                return v
            w = self.partial(l, idx, [(b, s) for (b, s, p) in ps if p[0][1] == idx], bi, si)
            fs[idx] = (fs[idx][0], w)
        return mk('agg', v.a[0], tuple(fs)) if tuple(fs) != v.a[1] else v

    def partial(self, l, idx, parts, bi, si):
        """value of field idx of local l at point, considering field writes (flow-sensitive, backwards)"""
        whole = set(self.defs()[0].get(l, []))
        pset = set(parts)
        out = []
        seen = set()

        def scan(b, lim):
            blk = self.body.blocks[b]
            if lim is None:
                if (b, -1) in pset or (b, -1) in whole:
                    return (b, -1)
                lim = len(blk.stmts)
            for k in range(lim - 1, -1, -1):
                if (b, k) in pset or (b, k) in whole:
                    return (b, k)
            return None
        d = scan(bi, si)
        if d:
            out.append(d)
        else:
            work = list(self.cfg.full_pred.get(bi, []))
            if bi == 0:
                out.append('entry')
            while work:
                p = work.pop()
                if p in seen:
                    continue
                seen.add(p)
                d = scan(p, None)
                if d:
                    out.append(d)
                    continue
                if p == 0:
                    out.append('entry')
                work.extend(self.cfg.full_pred.get(p, []))
        xs = []
        ty = self.body.locals.get(l)
        for d in out:
            if d == 'entry':
                if l in self.param_of:
                    xs.append((TRUE, self.field_of(self.args[self.param_of[l]], ty, idx, None)))
                continue
            if len(out) > 1 and self.loop_carried(d, bi, si):
                xs.append((TRUE, mk('rec', self.body.name, '%s.%d' % (self.body.debug.get(l, '_%d' % l), idx))))
                continue
            if d in pset:
                key = ('part', l, idx, d)
                if key in self.memo:
                    v = self.memo[key]
                elif key in self.active:
                    v = mk('rec', self.body.name, '%s.%d' % (self.body.debug.get(l, '_%d' % l), idx))
                else:
                    self.active.add(key)
                    b, s = d
                    if s == -1:
                        v = self.call_value(b)
                    else:
                        v = self.rvalue(self.body.blocks[b].stmts[s].rv, b, s)
                    self.active.discard(key)
                    self.memo[key] = v
                xs.append((self._rel_guard(d[0], bi), v))
            else:
                xs.append((self._rel_guard(d[0], bi), self.field_of(self.def_value(l, d), ty, idx, None)))
        return phi(xs) if xs else mk('undef', self.body.name, l)

    def field_of(self, v, ty, idx, variant):
        v0 = v
        if variant is not None:
            if variant in ('Some', 'Ok', 'Continue', 'Ready') and idx == 0 and base_ty(ty or '') in ('Option', 'Result', 'ControlFlow', 'Poll'):
                return payload(v)
            if variant in ('Err', 'Break') and idx == 0 and base_ty(ty or '') in ('Result', 'ControlFlow'):
                return errload(v)
            nm = self.e.src.variant_fields(self.body.crate, ty or '', variant, idx)
            if v.op == 'agg':
                if v.a[0].split('::')[-1] == variant:
                    return field(v, nm)
            if v.op == 'phi':
                xs = []
                for g, x in v.a[0]:
                    if x.op == 'agg' and '::' in x.a[0] and x.a[0].split('::')[-1] != variant:
                        continue
                    xs.append((g, self.field_of(x, ty, idx, variant)))
                if xs:
                    return phi(xs)
            return mk('vfield', v, variant, nm)
        b = base_ty(ty or '')
        m = re.match(r'__(\w+?)Projection(Ref|Owned)?$', b)
        if m:
            ty = b = m.group(1)
        if v.op == 'closure':
            ups = v.a[1]
            if idx < len(ups):
                return ups[idx][1]
        if v.op == 'phi':
            return phi([(g, self.field_of(x, ty, idx, None)) for g, x in v.a[0]])
        if b == 'tuple' or (ty or '').startswith('('):
            return field(strip_mut(v), str(idx))
        if '[closure@' in (ty or '') or '[generator@' in (ty or '') or '[async ' in (ty or ''):
            return mk('upvar', v, idx)
        if b in ('Box', 'Unique', 'NonNull', 'Pin'):
            return v
        nm = self.e.src.field_name(self.body.crate, ty or '', idx)
        if b in ('Range', 'RangeInclusive', 'RangeFrom', 'RangeTo') and nm == str(idx):
            nm = {0: 'start', 1: 'end'}.get(idx, nm)
        return field(strip_mut(v), nm)

    def project(self, v, ty, pr, bi, si):
        variant = None
        for p in pr:
            if p[0] == 'deref':
                ty = deref_ty(ty or '')
            elif p[0] == 'down':
                variant = p[1]
            elif p[0] == 'field':
                v = self.field_of(v, ty, p[1], variant)
                ty = p[2]
                variant = None
            elif p[0] == 'index':
                ix = self.local_at(p[1], bi, si)
                v = index(v, ix)
                ty = _elem_ty(ty)
            elif p[0] == 'cindex':
                m = re.match(r'(-?\d+) of', p[1])
                v = index(v, const((m.group(1) if m else p[1]) + '_usize'))
                ty = _elem_ty(ty)
            else:
                v = mk('subslice', v, p[1])
        return v

    # ---- lvalues ----------------------------------------------------------
    def lvalue(self, pl, bi, si):
        l, pr = pl
        if not pr:
            return self._var(l)
        if pr[0][0] != 'deref':
            return self._proj_l(self._var(l), self.body.locals.get(l), pr, bi, si)
        base = self.local_at(l, bi, si)
        ty = deref_ty(self.body.locals.get(l) or '')
        return self._proj_l(base, ty, pr[1:], bi, si)

    def _proj_l(self, v, ty, pr, bi, si):
        for n, p in enumerate(pr):
            if p[0] == 'deref':
                ty = deref_ty(ty or '')
            elif p[0] == 'down':
                pass
            elif p[0] == 'field':
                variant = pr[n - 1][1] if n and pr[n - 1][0] == 'down' else None
                v = self.field_of(v, ty, p[1], variant)
                ty = p[2]
            elif p[0] == 'index':
                v = index(v, self.local_at(p[1], bi, si))
                ty = _elem_ty(ty)
            else:
                v = mk('subslice', v, str(p[1]))
        if v.op == 'mutref':
            return v.a[0]
        return v

    # ---- guards ---------------------------------------------------------------
    def guard(self, bi):
        g = self._guards.get(bi)
        if g is not None:
            return g
        if bi not in self.cfg.nodes:
            # diverging region: use nearest dominating live branch, best effort
            return self._guard_div(bi)
        self._gact.add(bi)
        cd = self.cfg.cdeps().get(bi, ())
        groups = {}
        for (a, s) in cd:
            if a == bi or a in self._gact:
                continue
            if bi in self.cfg.doms()[a] and a != bi:
                continue      # loop-carried
            groups.setdefault(a, []).append(s)
        if not groups:
            res = TRUE
        else:
            out = set()
            for a, ss in groups.items():
                ga = self.guard(a)
                for s in ss:
                    for x in dnf_and(ga, self.edge_atom(a, s)):
                        out.add(x)
            out = simplify_dnf(out)
            if len(out) > 24:
                out = {frozenset.intersection(*out)}
            res = frozenset(out)
        self._gact.discard(bi)
        self._guards[bi] = res
        return res

    def edge_guard(self, a, s):
        return dnf_and(self.guard(a), self.edge_atom(a, s))

    def backedges(self):
        return [(a, s) for a in sorted(self.cfg.nodes) for s in self.cfg.succ[a] if s in self.cfg.doms()[a]]

    def _guard_div(self, bi):
        seen = set()
        work = [bi]
        out = set()
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            for p in self.cfg.full_pred.get(x, []):
                if p in self.cfg.nodes:
                    ga = self.guard(p)
                    ea = self.edge_atom(p, x) if self.body.blocks[p].term.kind == 'switch' else TRUE
                    for y in dnf_and(ga, ea):
                        out.add(y)
                else:
                    work.append(p)
        if not out:
            return TRUE
        if len(out) > 24:
            out = {frozenset.intersection(*out)}
        return frozenset(out)

    def edge_atom(self, a, s):
        t = self.body.blocks[a].term
        if t.kind != 'switch':
            return TRUE
        n = len(self.body.blocks[a].stmts)
        v = self.operand(t.op, a, n)
        vals = [x for x, tg in t.targets if tg == s]
        others = [x for x, tg in t.targets if tg != s and x != 'otherwise']
        d = v
        if d.op == 'discr':
            vs = self.e.src.variants(self.body.crate, d.a[1])
            subj = d.a[0]
            names = dict((str(dv), nm) for nm, dv in vs) if vs else {}
            if vs:
                names.update({'255': 'Less', '18446744073709551615': 'Less'} if vs[0][0] == 'Less' else {})
            out = set()
            falsified = False
            for x in vals:
                if x == 'otherwise':
                    covered = {y for y, _ in t.targets if y != 'otherwise'}
                    hit = {names.get(y, y) for y in covered}
                    rest = sorted({nm for nm in names.values() if nm and nm not in hit}, key=list(names.values()).index)
                    # drop unreachable otherwise
                    if vs and not rest:
                        continue
                    if vs:
                        for nm in rest:
                            r = self._is(subj, nm)
                            falsified |= not r
                            out |= r
                    else:
                        out.add(frozenset([mk('isnot', subj, tuple(sorted(covered)))]))
                else:
                    r = self._is(subj, names.get(x, x))
                    falsified |= not r
                    out |= r
            return frozenset(out) if out or falsified else TRUE
        # bool / int switch
        ty = None
        if t.op[0] == 'place':
            ty = self.place_type(t.op[1])
        if ty == 'bool':
            out = set()
            for x in vals:
                pol = not (x == '0' or (x == 'otherwise' and '0' not in [y for y, _ in t.targets]))
                if x == 'otherwise':
                    pol = True
                out |= set(atom(v, pol))
            return frozenset(out) if out else frozenset()
        out = set()
        for x in vals:
            if x == 'otherwise':
                out.add(frozenset(_cmp_norm('Ne', v, const('%s_%s' % (signed(y, ty), ty))) for y, _ in t.targets if y != 'otherwise'))
            else:
                out.add(frozenset([_cmp_norm('Eq', v, const('%s_%s' % (signed(x, ty), ty)))]))
        return frozenset(out)

    def _is(self, subj, nm):
        subj = strip_mut(subj)
        if nm in ('Continue', 'Break'):
            if subj.op in ('some', 'ok'):
                return TRUE if nm == 'Continue' else frozenset()
            if subj.op == 'agg' and variant_of(subj) in ('Ok', 'Some', 'Err', 'None'):
                return TRUE if (variant_of(subj) in ('Ok', 'Some')) == (nm == 'Continue') else frozenset()
            return _one(mk('try', subj, 'ok' if nm == 'Continue' else 'err'))
        if subj.op == 'iternext':
            return _one(each(subj.a[0]) if nm == 'Some' else mk('done', subj.a[0]))
        if subj.op == 'await':
            return _one(mk('ready', subj, nm))
        return is_dnf(subj, nm)

    # ---- calls ---------------------------------------------------------------
    def call_value(self, bi):
        return self.call(bi)[0]

    def call(self, bi):
        c = self.calls.get(bi)
        if c is not None:
            return c
        if ('call', bi) in self.active:
            return (mk('rec', self.body.name, 'bb%d' % bi), '?', (), [])
        self.active.add(('call', bi))
        try:
            c = self._call(bi)
        finally:
            self.active.discard(('call', bi))
        self.calls[bi] = c
        return c

    def _argtypes(self, t):
        out = []
        for a in t.args:
            if a[0] == 'place':
                out.append(self.place_type(a[1]))
            else:
                out.append(None)
        return out

    def _call(self, bi):
        """-> (ret term, canonical name, arg terms, [(subframe, extra guard dnf)], full text)"""
        b = self.body.blocks[bi]
        t = b.term
        n = len(b.stmts)
        args = tuple(self.operand(a, bi, n) for a in t.args)
        if t.func[0] == 'op':
            f = self.operand(t.func[1], bi, n)
            r, subs = self.apply(f, args)
            return (r, 'apply', (f,) + args, subs, 'fnptr')
        text = t.func[1]
        name, selfty, trait, meth, cands = self.e.callee(text, self.body.crate)
        r, subs = self.model(name, selfty, trait, meth, cands, args, t, text)
        return (r, name, args, subs, text)

    def inline(self, body, args, name):
        if name in self.e.opaque or body in self.stack or len(self.stack) >= self.e.max_depth:
            return None
        if 'tree_file_format' in body.name:
            return None
        if len(args) != len(body.params):
            return None
        return self.e.frame(body, tuple(args), self.stack)

    def apply(self, f, args):
        """apply a callable term to argument terms -> (ret, [(frame, guard)])"""
        f = strip_mut(f)
        if f.op == 'closure':
            cb = self._closure_by_name(f)
            if cb is not None and cb not in self.stack and len(self.stack) < self.e.max_depth + 4:
                ps = [f] + list(args)
                if len(ps) != len(cb.params):
                    ps = (ps + [mk('unknownarg')] * 8)[:len(cb.params)]
                fr = self.e.frame(cb, tuple(ps), self.stack)
                return fr.ret(), [(fr, TRUE)]
            return mk('call', 'apply', (f,) + tuple(args)), []
        if f.op == 'fnitem':
            name, selfty, trait, meth, cands = self.e.callee(f.a[0], f.a[1])
            if meth[:1].isupper():      # constructor as function
                if meth in ('Some',):
                    return mk('some', args[0]), []
                if meth in ('Ok',):
                    return mk('ok', args[0]), []
                return mk('agg', name, tuple((str(i), a) for i, a in enumerate(args))), []
            r, subs = self.model(name, selfty, trait, meth, cands, tuple(args), None, f.a[0])
            return r, subs
        if f.op == 'phi':
            rs, subs = [], []
            for g, x in f.a[0]:
                r, s = self.apply(x, args)
                rs.append((g, r))
                subs += s
            return phi(rs), subs
        return mk('call', 'apply', (f,) + tuple(args)), []

    def _closure_by_name(self, f):
        head, _, nm = f.a[0].partition('#')
        m = re.search(r'(?:closure|generator|async [a-z ]+)@(.*?:\d+:\d+: \d+:\d+)', head)
        for c in self.e.closures.get(m.group(1) if m else '', []):
            if self.e.closure_key(c) == nm:
                return c
        return None

    def model(self, name, selfty, trait, meth, cands, args, t, text):
        subs = []
        # calling a callable
        if name in ('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call'):
            tup = args[1]
            a = [v for _, v in tup.a[1]] if tup.op == 'agg' and tup.a[0] == 'tuple' else ([] if tup.op == 'const' else [tup])
            return self.apply(args[0], a)
        if meth in ('project', 'project_ref') and len(args) == 1 and '::_::' in text:
            return args[0], subs      # pin-projection: the same fields, behind references
        if name == 'Future::poll':
            return self.await_(args[0], subs), subs
        # in-crate, kept opaque by the rule: closures are applied to what the accessor hands out
        if cands and name in self.e.opaque and any(strip_mut(a).op == 'closure' for a in args):
            return self.opaque_hof(name, cands[0], args, subs), subs
        if cands:
            at = self._argtypes(t) if t is not None else [None] * len(args)
            body = self.e.pick(cands, at, self.body)
            if body is not None:
                fr = self.inline(body, args, name)
                if fr is not None:
                    rt = fr.ret()
                    subs.append((fr, TRUE))
                    if rt._n <= self.e.ret_limit and not fr._ret_busy:
                        return rt, subs
                    return mk('call', name, args), subs
                if not (trait in ('Clone', 'Deref', 'DerefMut', 'From', 'Into')):
                    return mk('call', name, args), subs
        if name in TRANSPARENT and args:
            if name in ('Option::ok_or_else', 'Result::map_err') and len(args) > 1:
                _, s = self.apply(args[1], [errload(args[0])] if name == 'Result::map_err' else [])
                subs += [(f, dnf_and(g, is_dnf(args[0], 'Err' if name == 'Result::map_err' else 'None'))) for f, g in s]
            if name == 'Try::branch' or name != 'From::from' or not self._incrate_from(text):
                return args[0], subs
        if name in PAYLOAD and args:
            return payload(args[0]), subs
        if name in OKWRAP and args:
            return mk('ok', args[0]), subs
        ty0 = name.split('::')[0]
        if ty0 in ('Option', 'Result', 'Poll') and args:
            r = self.model_option(ty0, meth, args, subs)
            if r is not None:
                return r, subs
        if name in ('Iterator::next', 'DoubleEndedIterator::next_back') and args:
            return mk('iternext', args[0]), subs
        if trait in ('Iterator', 'ParallelIterator', 'IndexedParallelIterator', 'DoubleEndedIterator', 'Itertools') and args:
            r = self.model_iter(meth, args, subs)
            if r is not None:
                return r, subs
        if name in ('Index::index', 'IndexMut::index_mut') and len(args) == 2:
            if args[1].op == 'agg' and args[1].a[0] == 'RangeFull' or (args[1].op == 'const' and 'RangeFull' in args[1].a[0]):
                return args[0], subs
            if base_ty(selfty or '') in ('HashMap',):
                return mk('call', 'HashMap::index', args), subs
            return index(args[0], args[1]), subs
        if name in ('slice::get', 'slice::get_mut', 'Vec::get', 'Vec::get_mut') and len(args) == 2:
            return mk('getopt', args[0], args[1]), subs
        if name in ('iter::once', 'rayon::iter::once') and len(args) == 1:
            return mk('agg', 'array', (('0', args[0]),)), subs
        if name == 'slice::windows' and len(args) == 2:
            return mk('windows', strip_mut(args[0]), args[1]), subs
        if name in ('slice::len', 'Vec::len', 'str::len', 'String::len', 'SmallVec::len', 'ExactSizeIterator::len', 'VecDeque::len', 'HashMap::len', 'BinaryHeap::len'):
            return mk('len', args[0]), subs
        if name in ('Vec::drain',) and len(args) == 2:
            if 'RangeFull' in show(args[1]):
                return args[0], subs
            if args[1].op == 'agg' and args[1].a[0].split('::')[-1] == 'RangeFrom' and is_zero(args[1].a[1][0][1]):
                return args[0], subs
            return mk('drain', args[0], args[1]), subs
        if trait in ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitOr', 'BitAnd', 'BitXor', 'Shl', 'Shr') and len(args) == 2 and meth in ('add', 'sub', 'mul', 'div', 'rem', 'bitor', 'bitand', 'bitxor', 'shl', 'shr'):
            return self.binop(trait, args[0], args[1]), subs
        if trait == 'Neg' and len(args) == 1:
            return mk('un', 'Neg', args[0]), subs
        if trait == 'Not' and len(args) == 1:
            return mk('un', 'Not', args[0]), subs
        if trait in ('PartialOrd', 'PartialEq') and meth in CMPCALL and len(args) == 2:
            return cmp_term(CMPCALL[meth], strip_mut(args[0]), strip_mut(args[1])), subs
        if name == 'mem::size_of' and not args:
            m = re.search(r'size_of::<(\w+)>', text)
            if m and m.group(1) in SIZES:
                return const('%d_usize' % SIZES[m.group(1)]), subs
        if name in ALLOC and t is not None:
            return mk('new', name, '%s@%s' % (self.body.name, self._site(t)), args), subs
        if name == 'FromResidual::from_residual':
            return mk('residual', args[0]), subs
        if name in ('cmp::max', 'Ord::max', 'f32::max', 'f64::max', 'cmp::min', 'Ord::min', 'f32::min', 'f64::min') and len(args) == 2:
            a, b = sorted((strip_mut(args[0]), strip_mut(args[1])))
            return mk('bin', 'Max' if meth == 'max' else 'Min', a, b), subs
        # unknown external: closures are called with elements / payload of the receiver
        for i, a in enumerate(args):
            a = strip_mut(a)
            if a.op in ('closure',) or (a.op == 'fnitem' and i > 0):
                cb = self._closure_by_name(a) if a.op == 'closure' else None
                np = len(cb.params) - 1 if cb is not None else 1
                rcv = args[0] if i > 0 else mk('unknownarg')
                if np == 2 and meth in ('sort_by', 'sort_unstable_by', 'sort_by_cached_key', 'par_sort_by', 'par_sort_unstable_by', 'binary_search_by'):
                    r_, s = self.apply(a, [elem(rcv), other(elem(rcv))])
                    args = tuple(args[:i]) + (mk('ordering', a, r_),) + tuple(args[i + 1:])
                else:
                    _, s = self.apply(a, [elem(rcv)] * np)
                subs += s
        return mk('call', name, args), subs

    def opaque_hof(self, name, body, args, subs):
        plain = tuple(a for a in args if strip_mut(a).op != 'closure')
        base = mk('call', name, plain)
        if name == 'MonoReadHandle::get_and' and len(plain) == 2:
            base = node_lookup(plain[0], plain[1]) or base
        rty = (body.ret or '').strip()
        isopt = re.match(r'(std::option::|core::option::)?Option<', rty) is not None
        isunit = rty in ('', '()')
        r = None
        for a in args:
            a = strip_mut(a)
            if a.op != 'closure':
                continue
            cb = self._closure_by_name(a)
            np = len(cb.params) - 1 if cb is not None else 1
            if isunit:
                src, g = elem(base), _one(each(base))
            elif isopt:
                src, g = payload(base), is_dnf(base, 'Some')
            else:
                src, g = mk('given', base), TRUE
            ar = [src] if np == 1 else [field(src, str(i)) for i in range(np)]
            r, s = self.apply(a, ar)
            subs.extend((f, dnf_and(g, g2)) for f, g2 in s)
        if isunit:
            return const('()')
        if isopt:
            return mk('optmap', base, r)
        return mk('call', name, args)

    def _site(self, t):
        l = t.dest[0] if t.dest else 0
        for bi, b in self.body.blocks.items():
            if b.term is t:
                return 'bb%d' % bi
        return '_%d' % l

    def _incrate_from(self, text):
        return False

    def await_(self, x, subs):
        x = strip_mut(x)
        if x.op == 'closure' and ('generator@' in x.a[0] or 'async ' in x.a[0]):
            cb = self._closure_by_name(x)
            if cb is not None and cb not in self.stack and len(self.stack) < self.e.max_depth + 4:
                ps = [x] + [mk('cx')] * (len(cb.params) - 1)
                fr = self.e.frame(cb, tuple(ps), self.stack)
                subs.append((fr, TRUE))
                return mk('ok', fr.ret())
        return mk('await', x)

    def model_option(self, ty, meth, args, subs):
        x = args[0]
        good = {'Option': 'Some', 'Poll': 'Ready'}.get(ty, 'Ok')
        bad = {'Option': 'None', 'Poll': 'Pending'}.get(ty, 'Err')
        gg = is_dnf(x, good)
        gb = is_dnf(x, bad)

        def ap(f, a, g):
            r, s = self.apply(f, a)
            subs.extend((fr, dnf_and(g, g2)) for fr, g2 in s)
            return r
        if meth == 'map':
            r = ap(args[1], [payload(x)], gg)
            return mk('some' if ty == 'Option' else 'ok', r) if x.op in ('some', 'ok') else mk('optmap', x, r)
        if meth == 'and_then':
            r = ap(args[1], [payload(x)], gg)
            if x.op in ('some', 'ok'):
                return r
            no = (('0', errload(x)),) if ty == 'Result' else ()
            return phi([(gg, r), (gb, mk('agg', ty + '::' + bad, no))])
        if meth == 'or_else':
            if x.op in ('some', 'ok'):
                return x
            r = ap(args[1], [errload(x)] if ty == 'Result' else [], gb)
            return phi([(gg, x), (gb, r)])
        if meth == 'unwrap_or':
            return phi([(gg, payload(x)), (gb, args[1])])
        if meth == 'unwrap_or_else':
            r = ap(args[1], [errload(x)] if ty == 'Result' else [], gb)
            return phi([(gg, payload(x)), (gb, r)])
        if meth == 'map_or':
            r = ap(args[2], [payload(x)], gg)
            return phi([(gg, r), (gb, args[1])])
        if meth == 'map_or_else':
            r = ap(args[2], [payload(x)], gg)
            q = ap(args[1], [errload(x)] if ty == 'Result' else [], gb)
            return phi([(gg, r), (gb, q)])
        if meth == 'filter':
            r = ap(args[1], [payload(x)], gg)
            none = mk('agg', ty + '::' + bad, ())
            return phi([(dnf_and(gg, atom(r, True)), mk('some', payload(x))), (dnf_and(gg, atom(r, False)), none), (gb, none)])
        if meth in ('or',):
            return phi([(gg, x), (gb, args[1])])
        if meth == 'get_or_insert_with':
            r = ap(args[1], [], gb)
            return phi([(gg, payload(x)), (gb, r)])
        if meth in ('iter', 'transpose', 'into_iter'):
            return x
        if meth == 'unwrap_err' or meth == 'expect_err' or meth == 'err':
            return errload(x)
        return None

    def model_iter(self, meth, args, subs):
        x = args[0]
        g = _one(each(x))

        def ap(f, a):
            r, s = self.apply(f, a)
            subs.extend((fr, dnf_and(g, g2)) for fr, g2 in s)
            return r
        if meth == 'map':
            return mk('mapped', x, ap(args[1], [elem(x)]))
        if meth == 'map_init':
            i, s = self.apply(args[1], [])
            subs.extend(s)
            return mk('mapped', x, ap(args[2], [i, elem(x)]))
        if meth in ('flat_map',):
            return mk('flatmapped', x, ap(args[1], [elem(x)]))
        if meth == 'flatten':
            return mk('flatmapped', x, elem(x))
        if meth in ('filter',):
            r = ap(args[1], [elem(x)])
            return mk('filtered', x, r)
        if meth in ('take_while', 'skip_while'):
            r = ap(args[1], [elem(x)])
            return mk('taken', x, meth, r)
        if meth == 'partition':
            r = ap(args[1], [elem(x)])
            return mk('agg', 'tuple', (('0', mk('filtered', x, r)), ('1', mk('filtered', x, mk('un', 'Not', r)))))
        if meth == 'unzip':
            v = elem(x)
            return mk('agg', 'tuple', (('0', mk('mapped', x, field(v, '0'))), ('1', mk('mapped', x, field(v, '1')))))
        if meth == 'find_map':
            r = ap(args[1], [elem(x)])
            return mk('call', 'Iterator::find_map', (x, r))
        if meth == 'map_while':
            r = ap(args[1], [elem(x)])
            return mk('mapped', mk('taken', x, meth, r), payload(r))
        if meth in ('filter_map',):
            r = ap(args[1], [elem(x)])
            return mk('mapped', mk('filtered', x, mk('cond', is_dnf(r, 'Some'))), payload(r))
        if meth in ('for_each', 'try_for_each'):
            ap(args[1], [elem(x)])
            return const('()')
        if meth == 'inspect':
            ap(args[1], [elem(x)])
            return x
        if meth == 'fold' and len(args) == 3:
            acc = mk('rec', self.body.name, 'fold%d' % x.id)
            r = ap(args[2], [acc, elem(x)])
            return phi([(TRUE, args[1]), (g, r)])
        if meth == 'reduce' and len(args) == 2:
            acc = mk('rec', self.body.name, 'reduce%d' % x.id)
            r = ap(args[1], [acc, elem(x)])
            return mk('optmap', x, phi([(TRUE, elem(x)), (g, r)]))
        if meth == 'sum':
            acc = mk('rec', self.body.name, 'sum%d' % x.id)
            return phi([(TRUE, const('0_usize')), (g, self.binop('Add', acc, elem(x)))])
        if meth in ('any', 'all', 'position'):
            r = ap(args[1], [elem(x)])
            return mk('call', 'Iterator::' + meth, (x, r))
        if meth in ('find',):
            r = ap(args[1], [elem(x)])
            return mk('call', 'Iterator::find', (x, r))
        if meth in ('max_by', 'min_by', 'max_by_key', 'min_by_key'):
            r = ap(args[1], [elem(x), other(elem(x))][:2 if meth.endswith('by') else 1])
            return mk('call', 'Iterator::' + meth, (x, r))
        if meth == 'zip':
            return mk('zip', x, args[1])
        if meth == 'enumerate':
            return mk('enumerate', x)
        if meth == 'chain':
            return mk('chain', x, args[1])
        if meth == 'rev':
            return mk('rev', x)
        if meth in ('take', 'skip'):
            return mk('taken', x, meth, args[1])
        if meth == 'step_by':
            return mk('stepby', x, args[1])
        return None

    # ---- results ------------------------------------------------------------
    def ret(self):
        if self._ret is None:
            if self._ret_busy:
                return mk('call', 'recursive', (const(self.body.name),))
            self._ret_busy = True
            xs = []
            for bi in sorted(self.cfg.exits):
                if bi in self.cfg.reach:
                    n = len(self.body.blocks[bi].stmts)
                    xs.append((self.guard(bi), self.patched(0, self.local_at(0, bi, n), bi, n)))
            self._ret = phi(xs) if xs else mk('never')
            self._ret_busy = False
        return self._ret

    def local_events(self):
        """events of this body only (not inlined callees)"""
        if self._events is not None:
            return self._events
        out = []
        for bi in sorted(self.cfg.reach):
            b = self.body.blocks[bi]
            if b.cleanup:
                continue
            g = None
            for si, s in enumerate(b.stmts):
                if s.kind != 'assign':
                    continue
                l, pr = s.place
                if pr:
                    e = Event('write')
                    e.lval = self.lvalue(s.place, bi, si)
                    e.val = self.rvalue(s.rv, bi, si)
                    if e.lval.op == 'var':
                        e.kind = 'set'
                elif s.rv[0] in ('bin',) or (len(self.defs()[0].get(l, [])) > 1 and l in self.body.debug):
                    if l not in self.body.debug or len(self.defs()[0].get(l, [])) < 2:
                        continue
                    e = Event('set')
                    e.lval = self._var(l)
                    e.val = self.def_value(l, (bi, si))
                else:
                    continue
                if g is None:
                    g = self.guard(bi)
                if not g:
                    continue
                e.guard, e.span, e.body = g, s.span, self.body
                e.chain = ((self.body, bi, si),)
                out.append((e, []))
            t = b.term
            if t is None:
                continue
            if t.kind in ('call', 'drop', 'return'):
                if g is None:
                    g = self.guard(bi)
                if not g:
                    continue
            if t.kind == 'call':
                r, nm, args, subs, full = self.call(bi)
                e = Event('call')
                e.name, e.args, e.ret, e.full = nm, args, r, full
                e.guard, e.span, e.body = g, t.span, self.body
                e.chain = ((self.body, bi, len(b.stmts)),)
                e.inlined = bool(subs)
                e.dest = t.dest
                out.append((e, subs))
                m = re.match(r'(Add|Sub|Mul|Div|Rem)Assign::\w+_assign$', nm)
                if m and len(args) == 2 and not subs:
                    w = Event('write')
                    if args[0].op == 'mutref' and args[0].a[0].op == 'var':
                        w = Event('set')
                    w.lval = args[0].a[0] if args[0].op == 'mutref' else args[0]
                    w.val = self.binop(m.group(1), strip_mut(args[0]), strip_mut(args[1]))
                    w.guard, w.span, w.body = g, t.span, self.body
                    w.chain = ((self.body, bi, len(b.stmts) + 1),)
                    out.append((w, []))
                if nm in ('Option::replace', 'Option::insert', 'mem::replace') and len(args) == 2 and not subs:
                    w = Event('set' if args[0].op == 'mutref' and args[0].a[0].op == 'var' else 'write')
                    w.lval = args[0].a[0] if args[0].op == 'mutref' else args[0]
                    w.val = args[1] if nm == 'mem::replace' else mk('some', args[1])
                    w.guard, w.span, w.body = g, t.span, self.body
                    w.chain = ((self.body, bi, len(b.stmts) + 1),)
                    out.append((w, []))
                if t.dest and t.dest[1] and (t.dest[1][0][0] == 'deref'):
                    w = Event('write')
                    w.lval = self.lvalue(t.dest, bi, len(b.stmts))
                    w.val = r
                    w.guard, w.span, w.body = g, t.span, self.body
                    w.chain = ((self.body, bi, len(b.stmts) + 1),)
                    out.append((w, []))
                elif t.dest and not t.dest[1] and t.dest[0] in self.body.debug and len(self.defs()[0].get(t.dest[0], [])) > 1:
                    w = Event('set')
                    w.lval = self._var(t.dest[0])
                    w.val = r
                    w.guard, w.span, w.body = g, t.span, self.body
                    w.chain = ((self.body, bi, len(b.stmts) + 1),)
                    out.append((w, []))
            elif t.kind == 'drop':
                e = Event('drop')
                e.lval = self.lvalue(t.dest, bi, len(b.stmts))
                e.name = self.place_type(t.dest) or ''
                e.args = (self.place(t.dest, bi, len(b.stmts)),)
                e.guard, e.span, e.body = self.guard(bi), t.span, self.body
                e.chain = ((self.body, bi, len(b.stmts)),)
                db = [x for x in self.e.by_method.get((base_ty(e.name), 'drop'), []) if x.owner[1] == 'Drop']
                subs = []
                if len(db) == 1 and db[0] not in self.stack and len(self.stack) < self.e.max_depth:
                    subs = [(self.e.frame(db[0], e.args, self.stack), TRUE)]
                out.append((e, subs))
            elif t.kind == 'return':
                e = Event('return')
                e.val = self.patched(0, self.local_at(0, bi, len(b.stmts)), bi, len(b.stmts))
                e.guard, e.span, e.body = self.guard(bi), t.span, self.body
                e.chain = ((self.body, bi, len(b.stmts)),)
                out.append((e, []))
        self._events = out
        return out

    def events(self, drops=False, _seen=None, _depth=0):
        """all events incl. inlined frames (flattened)."""
        out = []
        _seen = _seen or ()
        for e, subs in self.local_events():
            if e.kind == 'drop' and not drops:
                continue
            if e.kind == 'return' and _depth:
                pass
            else:
                out.append(e)
            for fr, g in subs:
                if fr.body in _seen or _depth > 14:
                    continue
                base = dnf_and(e.guard, g)
                if not base:
                    continue
                for s in fr.events(drops, _seen + (self.body,), _depth + 1):
                    if s.kind == 'return':
                        continue
                    n = Event(s.kind)
                    n.name, n.full, n.args, n.ret, n.lval, n.val = s.name, s.full, s.args, s.ret, s.lval, s.val
                    n.span, n.body, n.inlined, n.dest = s.span, s.body, s.inlined, s.dest
                    n.guard = dnf_and(base, s.guard)
                    if not n.guard:
                        continue
                    n.chain = e.chain + s.chain
                    out.append(n)
        return out


def node_lookup(handle, key):
    """layers[internal_index(a.0)].node_reader.get(a.1)  ->  node(layers, a)"""
    h = strip_mut(handle)
    if h.op != 'field' or h.a[1] != 'node_reader':
        return None
    ix = strip_mut(h.a[0])
    if ix.op != 'index':
        return None
    i = strip_mut(ix.a[1])
    if not (i.op == 'call' and i.a[0] == 'CoverTreeParameters::internal_index'):
        return None
    sc, k = strip_mut(i.a[1][1]), strip_mut(key)
    if sc.op == 'field' and k.op == 'field' and sc.a[1] == '0' and k.a[1] == '1' and sc.a[0] is k.a[0]:
        a = sc.a[0]
    else:
        a = mk('agg', 'tuple', (('0', sc), ('1', k)))
    return mk('call', 'node', (ix.a[0], a))


def simplify_dnf(out):
    """merge complementary atoms: {g,a},{g,!a} -> {g}; drop supersets"""
    out = set(out)
    if len(out) > 64:
        return {frozenset.intersection(*out)}
    changed = True
    while changed and len(out) > 1:
        changed = False
        lst = list(out)
        for i in range(len(lst)):
            for j in range(i + 1, len(lst)):
                a, b = lst[i], lst[j]
                if a <= b:
                    out.discard(b)
                    changed = True
                    break
                if b <= a:
                    out.discard(a)
                    changed = True
                    break
                da, db = a - b, b - a
                if len(da) == 1 and len(db) == 1 and complementary(next(iter(da)), next(iter(db))):
                    out.discard(a)
                    out.discard(b)
                    out.add(a & b)
                    changed = True
                    break
                if len(da) == 1 and len(db) > 1 or len(db) == 1 and len(da) > 1:
                    # absorb: a or (!a & b) == a or b
                    if len(da) == 1:
                        x = next(iter(da))
                        c = [y for y in db if complementary(x, y)]
                        if c:
                            out.discard(b)
                            out.add(b - frozenset(c))
                            changed = True
                            break
                    else:
                        x = next(iter(db))
                        c = [y for y in da if complementary(x, y)]
                        if c:
                            out.discard(a)
                            out.add(a - frozenset(c))
                            changed = True
                            break
            if changed:
                break
    return out


COMPV = {('Some', 'None'), ('None', 'Some'), ('Ok', 'Err'), ('Err', 'Ok')}


def complementary(x, y):
    if x.op == 'bool' and y.op == 'bool':
        return x.a[0] is y.a[0] and x.a[1] != y.a[1]
    if x.op == 'is' and y.op == 'is':
        return x.a[0] is y.a[0] and (x.a[1], y.a[1]) in COMPV
    if {x.op, y.op} == {'empty', 'nonempty'} or {x.op, y.op} == {'each', 'done'}:
        return x.a[0] is y.a[0]
    if x.op == 'try' and y.op == 'try':
        return x.a[0] is y.a[0] and x.a[1] != y.a[1]
    if x.op == 'bin' and y.op == 'bin':
        (o1, a1, b1), (o2, a2, b2) = x.a, y.a
        if {o1, o2} == {'Eq', 'Ne'}:
            return a1 is a2 and b1 is b2
        if {o1, o2} == {'Lt', 'Le'}:
            return a1 is b2 and b1 is a2
        if o1 == o2 == 'Lt':
            # integer constants: a < k  vs  k-1 < a
            k1, k2 = _intval(b1), _intval(a2)
            if k1 and k2 and a1 is b2 and k2[0] == k1[0] - 1:
                return True
            k1, k2 = _intval(b2), _intval(a1)
            if k1 and k2 and a2 is b1 and k2[0] == k1[0] - 1:
                return True
    return False


def _one(a):
    return frozenset([frozenset([a])])


def index(v, ix):
    if v.op == 'elem' and v.a[0].op == 'windows':
        k = _intval(ix)
        if k:
            return after(elem(v.a[0].a[0]), k[0])
    if v.op == 'agg' and v.a[0] == 'array' and ix.op == 'const':
        k = _intval(ix)
        if k and 0 <= k[0] < len(v.a[1]):
            return v.a[1][k[0]][1]
    if ix.op == 'idx':
        # v[i] for i in 0..len(v)  ==  an element of v
        if ix.a[0] is v:
            return elem(v)
        if ix.a[0].op == 'zip' and any(x is v for x in ix.a[0].a):
            return elem(v)
    return mk('index', v, ix)


def deref_ty(t):
    t = t.strip()
    m = re.match(r"(&'\w+ mut |&'\w+ |&mut |&|\*const |\*mut )", t)
    if m:
        return t[m.end():]
    m = re.match(r'std::boxed::Box<(.*)>$', t)
    if m:
        return m.group(1)
    return t


def _elem_ty(t):
    if t is None:
        return None
    m = re.match(r'\[(.*?)(; [^;]*)?\]$', t)
    return m.group(1) if m else None


# ---- term utilities used by rules ---------------------------------------------

def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            for y in x.a:
                st.append(y)
        elif isinstance(x, (tuple, frozenset)):
            st.extend(x)


def val_subterms(t):
    """sub-terms by value flow only (guards inside phi skipped, closures' upvars skipped)"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            if x.op == 'phi':
                st.extend(v for _, v in x.a[0])
            elif x.op == 'closure':
                continue
            else:
                st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)


def contains(t, pred):
    return any(pred(x) for x in val_subterms(t))


def has(t, sub):
    return any(x is sub for x in val_subterms(t))
