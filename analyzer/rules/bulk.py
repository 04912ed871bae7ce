"""B01: bulk queries give one answer per point, in order."""
import sem
from rules import prop
from rules.cloud import rng
from rules.labels import okdeep
from rulelib import *

QS = ('CoverTreeReader::known_path', 'CoverTreeReader::path', 'CoverTreeReader::knn', 'CoverTreeReader::routing_knn')
OWN = 'BulkInterface'


class Seq:
    """what a sequence term holds, given the number of points asked about; items are tokens, not values"""

    def __init__(self, evs, n):
        self.evs, self.n = evs, n

    def seq(self, t, env):
        t = strip_mut(t)
        if t in env:
            if not isinstance(env[t], list):
                raise Unknown(t)
            return env[t]
        if is_param(t, 1):
            return [('point', j) for j in range(self.n)]
        if t.op in ('payload', 'narrow', 'ok', 'some'):
            return self.seq(t.a[0], env)
        r = rng(t)
        if r is not None and r[1] is not None and r[2] is not None:
            return list(range(self.num(r[1], env), self.num(r[2], env) + (1 if 'Inclusive' in r[0] else 0)))
        m = t.a[0].split('::')[-1] if t.op == 'call' else ''
        if m in ('par_chunks', 'chunks', 'chunks_exact', 'par_chunks_exact'):
            s, c = self.seq(t.a[1][0], env), self.num(t.a[1][1], env)
            if c <= 0:
                raise Unknown(t)
            out = [s[i:i + c] for i in range(0, len(s), c)]
            return [x for x in out if len(x) == c] if 'exact' in m else out
        if m in ('repeatn', 'repeat_n'):
            return [self.item(t.a[1][0], env)] * self.num(t.a[1][1], env)
        if m in ('outer_iter', 'axis_iter', 'rows', 'genrows') and is_param(t.a[1][0], 1):
            return [('point', j) for j in range(self.n)]
        if t.op == 'zip':
            return [tuple(x) for x in zip(*[self.seq(x, env) for x in t.a])]
        if t.op == 'enumerate':
            return list(enumerate(self.seq(t.a[0], env)))
        if t.op == 'rev':
            return self.seq(t.a[0], env)[::-1]
        if t.op in ('mapped', 'flatmapped'):
            out = []
            for x in self.seq(t.a[0], env):
                e = dict(env)
                self.bind(strip_mut(t.a[0]), x, e)
                try:
                    v = self.seq(t.a[1], e)
                except Unknown:
                    if t.op == 'flatmapped':
                        raise
                    v = self.item(t.a[1], e)
                out += v if t.op == 'flatmapped' else [v]
            return out
        if t.op == 'phi':
            return self.gathered(t, env)
        raise Unknown(t)

    def bind(self, s, x, env):
        env[mk('elem', s)] = x
        env[sem.elem(s)] = x
        if s.op == 'zip':
            for p, y in zip(s.a, x):
                self.bind(strip_mut(p), y, env)
        if s.op == 'enumerate':
            self.bind(strip_mut(s.a[0]), x[1], env)
            env[mk('rangeidx', s)] = x[0]
        if s.op == 'mapped':
            pass

    def num(self, t, env):
        t = strip_mut(t)
        if t in env and isinstance(env[t], int):
            return env[t]
        if intval(t) is not None:
            return intval(t)
        m = t.a[0].split('::')[-1] if t.op == 'call' else ''
        if m == 'ncols' and is_param(t.a[1][0], 1):
            return self.n + 7  # whatever the dimension: not the number of points
        if m in ('nrows', 'len_of') and is_param(t.a[1][0], 1):
            return self.n
        if len_of(t) is not None:
            return len(self.seq(len_of(t), env))
        if m == 'len':
            return len(self.seq(t.a[1][0], env))
        if t.op == 'bin':
            a, b = self.num(t.a[1], env), self.num(t.a[2], env)
            if t.a[0] == 'Add':
                return a + b
            if t.a[0] == 'Sub' and a >= b:
                return a - b
            if t.a[0] == 'Mul':
                return a * b
            if t.a[0] == 'Div' and b:
                return a // b
            if t.a[0] == 'Max':
                return max(a, b)
            if t.a[0] == 'Min':
                return min(a, b)
        if t.op == 'rangeidx':
            raise Unknown(t)
        raise Unknown(t)

    def item(self, t, env):
        t = strip_mut(t)
        if t in env:
            return env[t]
        if t.op in ('payload', 'narrow', 'ok', 'some'):
            return self.item(t.a[0], env)
        if mentions(t, lambda x: selff(x, 'reader')) and not mentions(t, lambda x: x.op == 'elem' or (x.op == 'call' and x.a[0] == 'apply')) and t.op in ('agg', 'field', 'call'):
            if t.op == 'call' and any(t.a[0].endswith(q) for q in QS):
                pass
            else:
                return 'reader'
        if t.op == 'param':
            return ('arg', t.a[0] if t.a else None, t)
        m = t.a[0].split('::')[-1] if t.op == 'call' else ''
        if m in ('as_slice', 'to_slice', 'view', 'deref'):
            return self.item(t.a[1][0], env)
        if m == 'row' and is_param(t.a[1][0], 1):
            return ('point', self.num(t.a[1][1], env))
        if t.op == 'index' and is_param(t.a[0], 1):
            try:
                return ('point', self.num(t.a[1], env))
            except Unknown:
                if isinstance(self.item(t.a[1], env), tuple):
                    return ('not', 'a position', show(t))
                raise
        if t.op == 'bin' and t.a[0] in ('Min', 'Max', 'Add', 'Sub', 'Mul', 'Div') and any(strip_mut(x).op == 'param' for x in t.a[1:]):
            return ('changed', show(t))
        if t.op == 'call' and t.a[0] == 'apply':
            if strip_mut(t.a[1][0]).op != 'param':
                raise Unknown(t)
            return ('apply', ) + tuple(self.item(x, env) for x in t.a[1][1:])
        if t.op in ('tuple', 'agg') and t.a and isinstance(t.a[-1], tuple) and len(t.a[-1]) == 1:
            return self.item(t.a[-1][0], env)
        if t.op == 'call' and any(t.a[0].endswith(q) for q in QS):
            return (t.a[0].split('::')[-1],) + tuple(self.item(x, env) for x in t.a[1])
        if intval(t) is not None:
            return intval(t)
        raise Unknown(t)

    def gathered(self, t, env):
        """phi[first | rec]: the chunks appended one after the other"""
        rec = [strip_mut(v) for _, v in sem.alts(t) if strip_mut(v).op == 'rec']
        first = [strip_mut(v) for _, v in sem.alts(t) if strip_mut(v).op != 'rec' and not empty(v)]
        if len(rec) != 1 or len(first) != 1:
            raise Unknown(t)
        ap = [e for e in self.evs if e.kind == 'call' and e.name.split('::')[-1] in ('extend', 'append', 'push', 'extend_from_slice', 'insert') and len(e.args) > 1
              and any(mentions(a, lambda x: x is rec[0]) for a in e.args)]
        red = [e for e in self.evs if e.kind == 'call' and e.name.split('::')[-1] in ('reduce', 'fold', 'reduce_with')]
        if len(ap) != 1 or len(red) != 1 or ap[0].name.split('::')[-1] in ('push', 'insert') or red[0].name.startswith('ParallelIterator'):
            raise Unknown(t)
        if [a for a in sem.must_atoms(ap[0].guard) if not loopish(a)]:
            raise Unknown(t)
        src = strip_mut(red[0].args[0])
        chunks = self.seq(src, env)
        acc, x = strip_mut(ap[0].args[0]), strip_mut(ap[0].args[1])
        front = mentions(x, lambda y: y is rec[0])
        if not all(isinstance(c, list) for c in chunks):
            raise Unknown(t)
        if front and mentions(acc, lambda y: y is rec[0]):
            raise Unknown(t)
        out = []
        for i, c in enumerate(chunks):
            out = c + out if front and i else out + c
        return out


def empty(t):
    t = strip_mut(t)
    return t.op == 'new' or (t.op == 'agg' and not t.a[1]) or (t.op == 'call' and t.a[0].split('::')[-1] in ('new', 'default'))


@prop('B01')
def bulk(ctx):
    want = {'index_map_with_reader': lambda j, k: ('apply', 'reader', ('point', j)),
            'point_map_with_reader': lambda j, k: ('apply', 'reader', ('point', j)),
            'array_map_with_reader': lambda j, k: ('apply', 'reader', ('point', j)),
            'known_path': lambda j, k: ('known_path', 'reader', ('point', j)),
            'known_path_and': lambda j, k: ('apply', 'reader', ('known_path', 'reader', ('point', j))),
            'path': lambda j, k: ('path', 'reader', ('point', j)),
            'knn': lambda j, k: ('knn', 'reader', ('point', j), k),
            'routing_knn': lambda j, k: ('routing_knn', 'reader', ('point', j), k)}
    for m, f in want.items():
        b = ctx.body(OWN, m)
        fr = ctx.frame(b, QS)
        evs, sub = ctx.nevents(b, QS)
        ret = subst(fr.ret(), sub)
        for d in [e for e in calls(evs, 'Vec::drain')]:
            r = rng(d.args[1])
            part = r is not None and ((r[1] is not None and intval(r[1]) not in (0, None)) or (r[2] is not None and intval(r[2]) is not None))
            ctx.ob('bulk/all', '%s takes all of what it drains' % m, not part, d, show(d.args[1]))
        cut = [e for e in evs if e.kind == 'call' and e.name.split('::')[-1] in ('pop', 'truncate', 'remove', 'swap_remove', 'dedup', 'reverse', 'sort', 'sort_by', 'rotate_left', 'retain')
               and not mentions(e.args[0], lambda x: selff(x, 'reader'))]
        ctx.tri('bulk/all', '%s does not reorder or drop answers' % m, True if not cut else None, cut[0] if cut else b.name)
        for c in [x for x in ctx.eng.bodies if x.name.startswith(b.name + '::{closure') and any(e.kind == 'call' and e.name.split('::')[-1] == 'reduce' for e in evs)]:
            cf = ctx.frame(c)
            ap = [e for e in cf.events() if e.kind == 'call' and e.name.split('::')[-1] in ('extend', 'append') and len(e.args) > 1 and e.body is c]
            if len(ap) == 1:
                acc, x, r = strip_mut(ap[0].args[0]), strip_mut(ap[0].args[1]), strip_mut(cf.ret())
                if acc.op == 'param' and r == acc:
                    back = is_param(acc, 1) or mentions(x, lambda y: is_param(y, 2))
                    ctx.ob('bulk/order', '%s appends later answers after earlier ones' % m, back, ap[0], '%s to %s' % (show(x), show(acc)))
        k = strip_mut(fr.args[2]) if len(fr.args) > 2 else None
        kt = ('arg', k.a[0] if k is not None and k.a else None, k)
        for n in (0, 1, 2, 99, 100, 101, 256, 1000):
            try:
                got = Seq(evs, n).seq(ret, {})
            except Unknown:
                got = None
            exp = [f(j, kt) for j in range(n)]
            ctx.tri('bulk/order', '%s of %d points: one answer each, in order' % (m, n), None if got is None or cut else got == exp, b.name, describe(got, exp) if got is not None else show(ret))
        # no points: no panic
        bad = []
        for e in evs:
            if e.kind == 'call' and e.name.split('::')[-1] in ('unwrap', 'expect') and e.name.split('::')[-2] == 'Option':
                x = strip_mut(e.args[0])
                if mentions(x, lambda y: y.op == 'rec') or x.op == 'optmap' or (x.op == 'call' and x.a[0].split('::')[-1] in ('next', 'first', 'last', 'reduce')) or x.op == 'iternext':
                    if not mentions(x, lambda y: is_call(y, 'as_slice')):
                        g = [a for a in sem.must_atoms(e.guard) if not loopish(a)]
                        bad.append(None if g else e)
        ctx.tri('bulk/none', '%s of no points does not panic' % m, None if None in bad else not bad, bad[0] if bad and bad[0] else b.name)


def describe(got, exp):
    if len(got) != len(exp):
        return '%d answers to %d points' % (len(got), len(exp))
    for i, (a, b) in enumerate(zip(got, exp)):
        if a != b:
            return 'answer %d is %s' % (i, str(a)[:120])
    return ''
