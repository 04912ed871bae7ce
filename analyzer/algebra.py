"""canonical polynomials of the arithmetic a function computes: sums over sequences become closed atoms, so two
formulas are compared by their normal form and not by the way the loop is written."""
from fractions import Fraction
from rulelib import *
import sem


class NoForm(Exception):
    pass


ONE = ((), )


def freeze(p):
    return frozenset(p.items())


class Alg:
    def __init__(self, evs=(), alias=None):
        self.evs = evs
        self.alias = alias or (lambda t: None)
        self.memo = {}
        self.terms = {}
        self.busy = set()

    # ---- polynomials
    def const(self, c):
        return {(): c} if c else {}

    def add(self, p, q, s=1):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + s * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def mul(self, p, q):
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                k = self.mono(m, n)
                v = r.get(k, 0) + c * d
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        return r

    def mono(self, m, n):
        d = dict(m)
        for a, e in n:
            d[a] = d.get(a, 0) + e
        return tuple(sorted(((a, e) for a, e in d.items() if e), key=repr))

    def atom(self, key, t=None):
        if t is not None:
            self.terms.setdefault(key, t)
        return {((key, 1),): 1}

    def inv(self, p):
        if not p:
            raise NoForm('division by zero')
        if len(p) == 1:
            (m, c), = p.items()
            return {tuple((a, -e) for a, e in m): Fraction(1) / Fraction(c)}
        # pull the leading coefficient out so that k*p and p share the inverse
        lead = Fraction(sorted(p.items(), key=repr)[0][1])
        q = {m: Fraction(c) / lead for m, c in p.items()}
        k = ('poly', freeze(q))
        self.terms.setdefault(k, None)
        self.deps = getattr(self, 'deps', {})
        self.deps[k] = [a for m in q for a, _ in m]
        return {((k, -1),): Fraction(1) / lead}

    # ---- terms
    def poly(self, t):
        t = strip_mut(t)
        r = self.memo.get(t)
        if r is None:
            if t in self.busy:
                raise NoForm('recursive')
            self.busy.add(t)
            try:
                r = self._poly(t)
            finally:
                self.busy.discard(t)
            self.memo[t] = r
        return r

    def _poly(self, t):
        a = self.alias(t)
        if a is not None:
            return a if isinstance(a, dict) else self.atom(a, t)
        k = intval(t)
        if k is not None:
            return self.const(k)
        f = floatval(t)
        if f is not None:
            return self.const(Fraction(f) if f == f and abs(f) < 1e300 else f)
        o = t.op
        if o == 'narrow':
            return self.poly(t.a[0])
        if o == 'bin' and t.a[0] in ('Add', 'Sub'):
            return self.add(self.poly(t.a[1]), self.poly(t.a[2]), 1 if t.a[0] == 'Add' else -1)
        if o == 'bin' and t.a[0] == 'Mul':
            return self.mul(self.poly(t.a[1]), self.poly(t.a[2]))
        if o == 'bin' and t.a[0] == 'Div':
            return self.mul(self.poly(t.a[1]), self.inv(self.poly(t.a[2])))
        if o == 'un' and t.a[0] == 'Neg':
            return self.add({}, self.poly(t.a[1]), -1)
        if o == 'call':
            n = t.a[0].split('::')[-1]
            if n in ('powi', 'pow') and intval(t.a[1][1]) is not None and 0 <= intval(t.a[1][1]) <= 4:
                r = self.const(1)
                for _ in range(intval(t.a[1][1])):
                    r = self.mul(r, self.poly(t.a[1][0]))
                return r
            if t.a[0].endswith('Iterator::sum') and len(t.a[1]) >= 1:
                q = strip_mut(t.a[1][0])
                v = q.a[1] if q.op == 'mapped' else sem.elem(q)
                return self.sum(q, self.poly(v))
            if n == 'mul_add' and len(t.a[1]) == 3:
                x, y, z = [self.poly(v) for v in t.a[1]]
                return self.add(self.mul(x, y), z)
            if n in ('abs', 'sqrt', 'ln', 'exp', 'max', 'min'):
                ks = [freeze(self.poly(x)) for x in t.a[1]]
                if n == 'abs':
                    neg = freeze(self.add({}, self.poly(t.a[1][0]), -1))
                    ks = [min(ks[0], neg, key=lambda x: repr(sorted(x, key=repr)))]
                if n in ('max', 'min'):
                    ks = sorted(ks, key=repr)
                key = (n,) + tuple(ks)
                self.deps = getattr(self, 'deps', {})
                self.deps[key] = [a for k_ in ks for m, _ in k_ for a, _ in m]
                return self.atom(key)
        if o == 'phi':
            return self.fold(t)
        return self.atom(self.key(t), t)

    def key(self, t):
        t = strip_mut(t)
        return ('t', t)

    # ---- sums
    def is_rec(self, t, r):
        t = strip_mut(t)
        if t is r:
            return True
        if t.op == 'phi':
            return any(self.is_rec(v, r) for _, v in t.a[0])
        return False

    def fold(self, t):
        alts = list(t.a[0])
        recs = {x for g, v in alts for x in subterms(v) if x.op == 'rec'}
        for r in sorted(recs, key=lambda x: x.id):
            # accumulator written in place: phi[init | step(rec)]
            for rr in (r,) + tuple(sem.field(r, str(i)) for i in range(4)):
                ini = [(g, v) for g, v in alts if not mentions(v, lambda x: x is r)]
                stp = [(g, v) for g, v in alts if mentions(v, lambda x: x is r)]
                if len(ini) != 1:
                    continue
                if all(strip_mut(v) is rr for g, v in stp):
                    # loop-carried variable: the steps are its assignments inside the loop
                    if rr is not r:
                        continue
                    sets = [e for e in self.evs if e.kind == 'set' and e.lval.op == 'var' and e.lval.a[0] == r.a[0] and e.lval.a[1] == r.a[1] and is_loop_guard(e.guard)]
                    stp = [(e.guard, e.val) for e in sets]
                    out = self.steps(stp, r, t)
                else:
                    out = self.steps(stp, rr, None)
                if out is not None:
                    return self.add(self.poly(ini[0][1]), out)
        raise NoForm('fold')

    def steps(self, stp, rec, whole):
        if not stp:
            return None
        tot = {}
        al = self.alias
        R = ('acc', rec)

        def alias(x):
            if strip_mut(x) is rec or (whole is not None and strip_mut(x) is whole) or (strip_mut(x).op == 'phi' and all(strip_mut(v) is rec or not mentions(v, lambda y: y.op == 'rec') for _, v in strip_mut(x).a[0]) and self.is_rec(x, rec)):
                return R
            return al(x)
        sub = Alg(self.evs, alias)
        sub.terms = self.terms
        sub.deps = getattr(self, 'deps', {})
        for g, v in stp:
            ea = [a for a in must_atoms(g) if a.op == 'each']
            if len(ea) != 1:
                ea = [a for a in ea if not (whole is None and not mentions(v, lambda x: x is sem.elem(a.a[0])))] or ea
                if len(ea) != 1:
                    return None
            p = sub.poly(v)
            one = ((R, 1),)
            if p.get(one) != 1:
                return None
            p = {m: c for m, c in p.items() if m != one}
            if any(a == R for m in p for a, _ in m):
                return None
            rest = frozenset(frozenset(a for a in c if a is not ea[0] and not (a.op == 'try')) for c in g)
            tot = self.add(tot, self.sum(ea[0].a[0], p, rest))
        self.deps = sub.deps
        return tot

    def seq(self, s):
        """(canonical key, base sequences)"""
        s = strip_mut(s)
        if s.op in ('mapped', 'rev', 'enumerate'):
            return self.seq(s.a[0])
        if s.op == 'zip':
            (k1, b1), (k2, b2) = self.seq(s.a[0]), self.seq(s.a[1])
            if k1 == k2:
                return k1, b1
            return ('zip',) + tuple(sorted((k1, k2), key=repr)), b1 | b2
        if s.op == 'filtered':
            k, b = self.seq(s.a[0])
            return ('filtered', k, s.a[1]), b
        if s.op in ('taken', 'stepby'):
            k, b = self.seq(s.a[0])
            return (s.op, k) + s.a[1:], b
        if s.op == 'some':
            return self.seq(s.a[0])
        return s, {s}

    def sum(self, s, p, cond=TRUE):
        key, bases = self.seq(s)
        if cond != TRUE and any(cond):
            key = ('cond', key, cond)
        elems = {sem.elem(b) for b in bases} | {mk('idx', b) for b in bases}

        def inner(a):
            t = self.terms.get(a)
            if t is not None:
                return mentions(t, lambda x: x in elems)
            d = getattr(self, 'deps', {}).get(a)
            return d is not None and any(inner(x) for x in d)
        out = {}
        groups = {}
        for m, c in p.items():
            i = tuple((a, e) for a, e in m if inner(a))
            o = tuple((a, e) for a, e in m if not inner(a))
            if not i and isinstance(key, sem.T):
                k = ('t', mk('len', key))
            else:
                k = ('sum', key, i)
            self.deps = getattr(self, 'deps', {})
            self.deps.setdefault(k, [a for a, _ in i])
            out = self.add(out, {self.mono(o, ((k, 1),)): c})
        return out

    # ---- interface
    def eq(self, t, p):
        """t denotes the polynomial p; None if t has no normal form"""
        try:
            q = self.poly(t)
        except NoForm:
            return None
        if q == p:
            return True
        known = self.leaves(p)
        if any(a not in known and self.strange(a) for a in self.leaves(q)):
            return None
        return False

    def leaves(self, p):
        """atoms of a polynomial, those inside sums and functions included"""
        out, st = set(), [a for m in p for a, _ in m]
        d = getattr(self, 'deps', {})
        while st:
            a = st.pop()
            if a in out:
                continue
            out.add(a)
            st += d.get(a, [])
        return out

    def strange(self, a):
        t = self.terms.get(a)
        return t is not None and t.op in ('call', 'phi', 'new', 'mapped', 'chain', 'closure', 'mutated', 'unk')
