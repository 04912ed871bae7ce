"""Rule-writing layer: anchors, obligations, pattern helpers, typestate runner,
guard decision tables."""
import re
import math
from itertools import product
import sem
from sem import (T, mk, TRUE, alts, subterms, val_subterms, must_atoms, show, strip_mut, payload, _intval, _len_of,
                 is_zero, is_one, dnf_and, complementary)

len_of = _len_of


class Missing(Exception):
    pass


class Ctx:
    def __init__(self, eng, pid, tier):
        self.eng, self.pid, self.tier = eng, pid, tier
        self.obs = []         # (rule, key, ok, where, detail)
        self.functions = {}
        self.sites = 0
        self.notes = []
        self._clones = {}

    # ---- anchors
    def body(self, owner, method, trait=None, crate=None):
        bs = self.eng.find(owner, method, trait, crate)
        if len(bs) > 1 and trait is None:
            b2 = [b for b in bs if b.owner[1] is None]
            if len(b2) == 1:
                bs = b2
        if len(bs) != 1:
            raise Missing('%s::%s%s: %d definitions' % (owner, method, ' (%s)' % trait if trait else '', len(bs)))
        self.functions[bs[0].name] = 1
        return bs[0]

    def free(self, name, crate=None, path=None):
        bs = self.eng.find_free(name, crate, path)
        if len(bs) != 1:
            raise Missing('fn %s: %d definitions' % (name, len(bs)))
        self.functions[bs[0].name] = 1
        return bs[0]

    def engine(self, opaque=(), max_depth=None):
        k = (tuple(sorted(opaque)), max_depth)
        if not opaque and max_depth is None:
            return self.eng
        if k not in self._clones:
            self._clones[k] = self.eng.clone_with(opaque, max_depth)
        return self._clones[k]

    def frame(self, body, opaque=(), args=None):
        return self.engine(opaque).frame(body, args)

    def events(self, body, opaque=(), args=None, drops=False):
        ev = self.engine(opaque).frame(body, args).events(drops=drops)
        self.sites += len(ev)
        for e in ev:
            if e.body is not None:
                self.functions[e.body.name] = 1
        return ev

    def nevents(self, body, opaque=(), args=None):
        """events with loop-filled vectors replaced by the sequence they hold, and the substitution"""
        return nevents(self.events(body, opaque, args))

    def undecided(self, what):
        self.notes.append('undecided ' + str(what)[:300])

    def tri(self, rule, key, v, where=None, detail=''):
        """obligation whose value may be None: not decided"""
        if v is None:
            self.undecided('%s | %s %s' % (rule, key, short(detail)))
            return None
        return self.ob(rule, key, v, where, detail)

    # ---- obligations
    def ob(self, rule, key, ok, where=None, detail=''):
        if hasattr(where, 'chain'):
            where = where.where()
        self.obs.append((rule, key, bool(ok), where or '', detail))
        return bool(ok)


def short(s):
    s = re.sub(r'[\w:]*<impl at [^<>]*>::', '', str(s))
    return s if len(s) < 700 else s[:700] + '...'


# ---- term predicates -------------------------------------------------------

def strip(t):
    """peel payload/some/ok/mutref wrappers"""
    while True:
        if t.op in ('payload', 'some', 'ok'):
            t = t.a[0]
        elif t.op == 'mutref':
            t = t.a[1]
        else:
            return t


def path(t):
    """('$self','r_handle','inner') for field chains (payload-transparent), else None for the root"""
    names = []
    t = strip(t)
    while t.op == 'field':
        names.append(t.a[1])
        t = strip(t.a[0])
    if t.op == 'param':
        names.append('$%d' % t.a[0])
    else:
        names.append(t)
    return tuple(reversed(names))


def isf(t, *names):
    """t is  <root>.names...  where root is anything"""
    if not isinstance(t, T):
        return False
    p = path(t)
    return len(p) > len(names) and p[-len(names):] == names


def selff(t, *names):
    """t is self.names... (param 0)"""
    return isinstance(t, T) and path(t) == ('$0',) + names


def is_param(t, i):
    t = strip_mut(t)
    return t.op == 'param' and t.a[0] == i


def is_call(t, *suffix):
    t = strip(t) if isinstance(t, T) else t
    return isinstance(t, T) and t.op == 'call' and any(t.a[0] == s or t.a[0].endswith('::' + s) for s in suffix)


def const_is(t, v):
    return isinstance(t, T) and t.op == 'const' and (t.a[0] == v or t.a[0].split('::')[-1] == v)


def intval(t):
    k = _intval(strip_mut(t))
    return k[0] if k else None


def floatval(t):
    if t.op == 'const':
        m = re.match(r'(-?[\d.]+(?:[eE][-+]?\d+)?)_?f(32|64)$', t.a[0])
        if m:
            return float(m.group(1))
    return None


def mentions(t, pred):
    return any(pred(x) for x in val_subterms(t))


def mentions_deep(t, pred):
    return any(pred(x) for x in subterms(t))


def variants(t):
    """value alternatives of a term (phi flattened), guards dropped"""
    return [v for _, v in alts(strip_mut(t))]


def ordering_of(t):
    if t.op == 'agg' and t.a[0].startswith('Ordering::'):
        return t.a[0].split('::')[1]
    return None


def lin(t):
    """linear form: ({term: coef}, const) over Add/Sub (and integer Mul by a constant)"""
    d, c = {}, 0

    def go(x, s):
        nonlocal c
        x = strip_mut(x)
        k = intval(x)
        if k is not None:
            c += s * k
            return
        f = floatval(x)
        if f is not None:
            c += s * f
            return
        if x.op == 'bin' and x.a[0] == 'Add':
            go(x.a[1], s)
            go(x.a[2], s)
            return
        if x.op == 'bin' and x.a[0] == 'Sub':
            go(x.a[1], s)
            go(x.a[2], -s)
            return
        if x.op == 'un' and x.a[0] == 'Neg':
            go(x.a[1], -s)
            return
        if x.op == 'bin' and x.a[0] == 'Mul':
            for p, q in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
                k = intval(p)
                if k is not None:
                    go(q, s * k)
                    return
        d[x] = d.get(x, 0) + s
    go(t, 1)
    return {k: v for k, v in d.items() if v}, c


def lin_eq(a, b):
    return lin(a) == lin(b)


# ---- guards -----------------------------------------------------------------

def atoms_of(dnf):
    r = set()
    for c in dnf:
        r |= c
    return r


def eval_dnf(dnf, val):
    """val(atom) -> True/False/None"""
    unk = False
    for c in dnf:
        r = True
        for a in c:
            v = val(a)
            if v is False:
                r = False
                break
            if v is None:
                r = None
        if r is True:
            return True
        if r is None:
            unk = True
    return None if unk else False


def strip_noise(dnf):
    """drop error-propagation atoms (try ok) from a guard"""
    return frozenset(frozenset(a for a in c if not (a.op == 'try' and a.a[1] == 'ok')) for c in dnf)


def guard_must(e):
    return frozenset(a for a in must_atoms(e.guard) if not (a.op == 'try' and a.a[1] == 'ok'))


def on_success(e):
    """event not on an error-propagation path"""
    return not any(any(a.op == 'try' and a.a[1] == 'err' for a in c) for c in e.guard)


# ---- evaluating guards/terms over a finite abstract model ---------------------

class Unknown(Exception):
    pass


def early(al):
    """alternatives, the ones left early from a loop first: what follows the loop is only reached when none of them is taken"""
    return sorted(al, key=lambda gv: bool(gv[0]) and all(any(a.op == 'done' for a in c) for c in gv[0]))


class Model:
    """decides guards and value terms in one cell of a finite abstraction:
    leaf(t) gives the value of the terms the rule knows (or None), everything
    else is computed from the operators.  Options are None or ('Some', v)."""

    def __init__(self, leaf):
        self.leaf = leaf
        self.busy = set()

    def val(self, t):
        t = strip_mut(t)
        v = self.leaf(t)
        if v is not None:
            return None if v == 'None' else v
        op = t.op
        if op == 'const':
            k = t.a[0]
            i = intval(t)
            if i is not None:
                return i
            f = floatval(t)
            if f is not None:
                return f
            if k in ('true', 'false'):
                return k == 'true'
            if k.endswith('f32::MAX') or k.endswith('INFINITY') or k.endswith('f64::MAX') or k.endswith('usize::MAX'):
                return float('inf')
            if k.endswith('f32::MIN') or k.endswith('f64::MIN'):
                return float('-inf')
            raise Unknown(t)
        if op == 'bin':
            o = t.a[0]
            if o in ('BitOr', 'BitAnd') and sem.boolish(t):
                a = self.val(t.a[1])
                if a is (o == 'BitOr'):
                    return a
                return self.val(t.a[2])
            a, b = self.val(t.a[1]), self.val(t.a[2])
            try:
                return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mul': lambda: a * b, 'Div': lambda: a / b,
                        'Rem': lambda: a % b, 'Max': lambda: max(a, b), 'Min': lambda: min(a, b), 'Lt': lambda: a < b, 'Le': lambda: a <= b,
                        'Gt': lambda: a > b, 'Ge': lambda: a >= b, 'Eq': lambda: a == b, 'Ne': lambda: a != b,
                        'BitOr': lambda: a | b, 'BitAnd': lambda: a & b, 'BitXor': lambda: a ^ b}[o]()
            except (KeyError, TypeError, ZeroDivisionError):
                raise Unknown(t)
        if op == 'un':
            a = self.val(t.a[1])
            return (not a) if t.a[0] == 'Not' else -a
        if op == 'phi':
            for g, v in early(t.a[0]):
                r = self.guard(g)
                if r is None:
                    raise Unknown(t)
                if r:
                    return self.val(v)
            raise Unknown(t)
        if op == 'payload':
            v = self.val(t.a[0])
            if isinstance(v, tuple) and v[0] == 'Some':
                return v[1]
            raise Unknown(t)
        if op in ('some', 'ok'):
            return ('Some', self.val(t.a[0]))
        if op == 'optmap':
            v = self.val(t.a[0])
            return None if v is None else ('Some', self.val(t.a[1]))
        if op == 'agg' and t.a[0].split('::')[-1] == 'None':
            return None
        if op == 'call' and t.a[0].split('::')[-1] in ('is_some', 'is_none', 'is_ok', 'is_err', 'is_empty') and len(t.a[1]) == 1:
            r = self.guard(sem.atom(t, True))
            if r is None:
                raise Unknown(t)
            return r
        if op == 'call' and t.a[0].split('::')[-1] in ('saturating_sub',):
            return max(0, self.val(t.a[1][0]) - self.val(t.a[1][1]))
        if op == 'call' and t.a[0].split('::')[-1] in ('powi', 'powf', 'pow') and len(t.a[1]) == 2:
            return self.val(t.a[1][0]) ** self.val(t.a[1][1])
        if op == 'call' and t.a[0] in ('f32::sqrt', 'f64::sqrt'):
            return self.val(t.a[1][0]) ** 0.5
        if op == 'call' and t.a[0] in ('f32::ceil', 'f64::ceil', 'f32::floor', 'f64::floor', 'f32::trunc', 'f64::trunc', 'f32::round', 'f64::round'):
            v, m = self.val(t.a[1][0]), t.a[0][5:]
            try:
                return math.ceil(v) if m == 'ceil' else math.floor(v) if m == 'floor' else math.trunc(v) if m == 'trunc' else int(math.floor(abs(v) + 0.5)) * (1 if v >= 0 else -1)
            except (TypeError, OverflowError, ValueError):
                raise Unknown(t)
        if op == 'call' and t.a[0] in ('f32::abs', 'f64::abs'):
            return abs(self.val(t.a[1][0]))
        raise Unknown(t)

    def atom(self, a):
        try:
            if a.op == 'each':
                v = self.leaf(a)
                return True if v is None else v
            if a.op == 'done':
                v = self.leaf(a)
                return True if v is None else v
            if a.op == 'try':
                v = self.leaf(a)
                return (a.a[1] == 'ok') if v is None else v
            if a.op == 'isnot':
                vs = [self.atom(mk('is', a.a[0], k)) for k in a.a[1]]
                return False if True in vs else None if None in vs else True
            if a.op == 'ready':
                v = self.leaf(a)
                return (a.a[1] == 'Ready') if v is None else v
            if a.op == 'is':
                v = self.leaf(a)
                if v is not None:
                    return v
                v = self.val(a.a[0])
                if a.a[1] in ('Some', 'Ok'):
                    return v is not None
                if a.a[1] in ('None', 'Err'):
                    return v is None
                return None
            if a.op in ('empty', 'nonempty'):
                v = self.leaf(a)
                if v is not None:
                    return v
                n = self.val(mk('len', a.a[0]))
                return (n == 0) == (a.op == 'empty')
            if a.op == 'bool':
                return self.val(a.a[0]) is a.a[1]
            if a.op == 'bin':
                return bool(self.val(a))
        except Unknown:
            return None
        return None

    def guard(self, dnf):
        unk = False
        for c in dnf:
            r = True
            for a in c:
                v = self.atom(a)
                if v is False:
                    r = False
                    break
                if v is None:
                    r = None
            if r is True:
                return True
            if r is None:
                unk = True
        return None if unk else False


def is_elem(t, src):
    """t is an element of the sequence term satisfying src (at the loop position of whichever sequence is walked)"""
    t = strip_mut(t)
    if t.op == 'elem':
        return src(strip_mut(t.a[0]))
    if t.op == 'index' and strip_mut(t.a[1]).op in ('idx', 'rangeidx'):
        return src(strip_mut(t.a[0]))
    return False


def par(i):
    return lambda t: is_param(t, i)


def loop_exits(fr, marker):
    """edges leaving the innermost cycles that contain a block with a marker event.
    -> [(block, succ, dnf of the edge)]"""
    cfg = fr.cfg
    blocks = {e.chain[0][1] for e, _ in fr.local_events() if marker(e)}
    out = []
    for b in blocks:
        scc = cycle_of(fr, b)
        for x in sorted(scc):
            for y in cfg.full_succ.get(x, []):
                if y in cfg.nodes and y not in scc:
                    g = fr.edge_atom(x, y) if fr.body.blocks[x].term.kind == 'switch' else TRUE
                    if g:
                        out.append((x, y, g))
    return out


def cycle_of(fr, b):
    """blocks of the smallest cycle-closed region through b (its strongly connected component)"""
    cfg = fr.cfg
    succ = {n: [s for s in cfg.full_succ.get(n, []) if s in cfg.nodes] for n in cfg.nodes}

    def reach(s, g):
        seen, st = set(), [s]
        while st:
            v = st.pop()
            for w in g.get(v, []):
                if w not in seen:
                    seen.add(w)
                    st.append(w)
        return seen
    f = reach(b, succ)
    if b not in f:
        return set()
    pred = {}
    for n in succ:
        for s in succ[n]:
            pred.setdefault(s, []).append(n)
    return f & reach(b, pred)


# ---- typestate ---------------------------------------------------------------

def is_loop_guard(g):
    return any(a.op == 'each' for c in g for a in c)


class Typestate:
    """run an automaton over every path of the inlined control-flow graph.
    step(state, event) -> state ; exits() -> set of states at return."""

    def __init__(self, step, max_states=256):
        self.step = step
        self.memo = {}
        self.active = set()
        self.max_states = max_states

    def run(self, fr, state):
        k = (fr, state)
        if k in self.memo:
            return self.memo[k]
        if k in self.active or len(self.active) > 40:
            return frozenset([state])
        self.active.add(k)
        byb = {}
        for e, subs in fr.local_events():
            byb.setdefault(e.chain[0][1], []).append((e, subs))
        inn = {0: {state}}
        work = [0]
        out = set()
        cfg = fr.cfg
        done = {}
        while work:
            b = work.pop()
            new = inn[b] - done.get(b, set())
            if not new:
                continue
            done.setdefault(b, set()).update(new)
            s = self.block(byb.get(b, ()), new)
            blk = fr.body.blocks[b]
            if blk.term is not None and blk.term.kind == 'return':
                out |= s
                continue
            sw = blk.term is not None and blk.term.kind == 'switch'
            for x in cfg.full_succ.get(b, []):
                if x not in cfg.nodes:
                    continue
                if sw and not fr.edge_atom(b, x):
                    continue
                cur = inn.setdefault(x, set())
                if not s <= cur:
                    cur |= s
                    work.append(x)
        self.active.discard(k)
        r = frozenset(out)
        self.memo[k] = r
        return r

    def block(self, evs, states):
        s = set(states)
        for e, subs in evs:
            if e.kind == 'return':
                continue
            s = {self.step(x, e) for x in s}
            s.discard(None)
            for fr, g in subs:
                t = set()
                for x in s:
                    t |= self.run(fr, x)
                if is_loop_guard(g):
                    acc = set(s)
                    while not t <= acc:
                        new = t - acc
                        acc |= t
                        t = set()
                        for x in new:
                            t |= self.run(fr, x)
                    s = acc
                elif g == TRUE:
                    s = t
                else:
                    s = s | t
        return s


class Flagged(Typestate):
    """Typestate that follows the values of boolean locals, so that a branch on a flag set earlier on the path goes the
    way of that flag.  at(frame, block, state) is called when control enters a block."""

    def __init__(self, step, at=None, max_states=256, edge=None):
        Typestate.__init__(self, step, max_states)
        self.at = at or (lambda fr, b, s: s)
        self.edge = edge      # edge(frame, dnf of the branch taken, state) -> state, None when it cannot be taken, a set when there are several

    def flags(self, fr, b, fl):
        d = dict(fl)
        for st in fr.body.blocks[b].stmts:
            pl = st.place
            if pl is None or len(pl[1]) or st.rv is None:
                continue
            if fr.body.locals.get(pl[0]) != 'bool' or pl[0] in fr.defs()[2]:
                continue
            d.pop(pl[0], None)
            rv = st.rv
            if rv[0] == 'use' or (rv[0] == 'un' and rv[1] == 'Not'):
                o = rv[1] if rv[0] == 'use' else rv[2]
                v = None
                if o[0] == 'const':
                    v = {'true': True, 'false': False}.get(o[1])
                elif o[0] == 'place' and not o[1][1]:
                    v = d.get(o[1][0])
                if v is not None:
                    d[pl[0]] = v if rv[0] == 'use' else not v
        t = fr.body.blocks[b].term
        if t is not None and t.dest is not None and not t.dest[1]:
            d.pop(t.dest[0], None)
        return frozenset(d.items())

    def run(self, fr, state):
        k = (fr, state)
        if k in self.memo:
            return self.memo[k]
        if k in self.active or len(self.active) > 40:
            return frozenset([state])
        self.active.add(k)
        byb = {}
        for e, subs in fr.local_events():
            byb.setdefault(e.chain[0][1], []).append((e, subs))
        inn = {0: {(state, frozenset())}}
        work = [0]
        out = set()
        cfg = fr.cfg
        done = {}
        while work:
            b = work.pop()
            new = inn[b] - done.get(b, set())
            if not new:
                continue
            done.setdefault(b, set()).update(new)
            blk = fr.body.blocks[b]
            sw = blk.term is not None and blk.term.kind == 'switch'
            for st, fl in new:
                s = self.block(byb.get(b, ()), {self.at(fr, b, st)})
                if blk.term is not None and blk.term.kind == 'return':
                    out |= s
                    continue
                fl = self.flags(fr, b, fl)
                known = None
                if sw and blk.term.op[0] == 'place' and not blk.term.op[1][1]:
                    known = dict(fl).get(blk.term.op[1][0])
                for x in cfg.full_succ.get(b, []):
                    if x not in cfg.nodes:
                        continue
                    if sw and not fr.edge_atom(b, x):
                        continue
                    if known is not None:
                        vals = [v for v, tg in blk.term.targets if tg == x]
                        zero = [tg for v, tg in blk.term.targets if v == '0']
                        if known and vals == ['0']:
                            continue
                        if not known and zero and x not in zero:
                            continue
                    cur = inn.setdefault(x, set())
                    to = s
                    if sw and self.edge is not None:
                        to = set()
                        for u in s:
                            w = self.edge(fr, fr.edge_atom(b, x), u)
                            to |= w if isinstance(w, set) else {w}
                        to.discard(None)
                    add = {(u, fl) for u in to}
                    if not add <= cur:
                        cur |= add
                        work.append(x)
        self.active.discard(k)
        r = frozenset(out)
        self.memo[k] = r
        return r


def count_range(fr, pred, cap=3, err=True):
    """set of possible numbers (capped) of matching events on a path to return; error paths marked 'E'"""
    def step(s, e):
        n, er = s
        if e.kind == 'call' and e.name == 'FromResidual::from_residual' and err:
            er = True
        if pred(e):
            n = min(cap, n + 1)
        return (n, er)
    ts = Typestate(step)
    return ts.run(fr, (0, False))


def event_before(e1, e2):
    """e1 is executed before e2 whenever e2 is executed (dominance through the inlining chain)"""
    for i, (x, y) in enumerate(zip(e1.chain, e2.chain)):
        if x == y:
            continue
        (b1, k1, s1), (b2, k2, s2) = x, y
        if b1 is not b2:
            return False
        cfg = _cfg(b1)
        if k1 == k2:
            ok = s1 < s2
        else:
            ok = k1 in cfg.rdoms().get(k2, ())
        if not ok:
            return False
        # deeper part of e1 must be unconditional in its callees
        for (b, k, s) in e1.chain[i + 1:]:
            c = _cfg(b)
            if k not in c.pdoms().get(0, ()):
                return False
        return True
    return len(e1.chain) < len(e2.chain)


def event_may_precede(e1, e2):
    """e2 can be executed after e1 on some path (forward, loops ignored)"""
    for (x, y) in zip(e1.chain, e2.chain):
        if x == y:
            continue
        (b1, k1, s1), (b2, k2, s2) = x, y
        if b1 is not b2:
            return True
        if k1 == k2:
            return s1 < s2
        return _cfg(b1).later(k1, k2)
    return len(e1.chain) < len(e2.chain)


def same_turn(e1, e2):
    """both events happen within one turn of a loop (or of a closure run per element)"""
    for n, (x, y) in enumerate(zip(e1.chain, e2.chain)):
        if x == y:
            continue
        (b1, k1, s1), (b2, k2, s2) = x, y
        return b1 is b2 and (n > 0 or any(k1 in l and k2 in l for l in _cfg(b1).loops().values()))
    return True


_CFGS = {}


def _cfg(body):
    c = _CFGS.get(id(body))
    if c is None:
        c = _CFGS[id(body)] = sem.CFG(body)
    return c


def calls(evs, *suffix):
    return [e for e in evs if e.kind == 'call' and any(e.name == s or e.name.endswith('::' + s) for s in suffix)]


def writes(evs, *fieldpath):
    return [e for e in evs if e.kind == 'write' and isf(e.lval, *fieldpath)]


def negate(a):
    if a.op == 'bin' and a.a[0] in sem.NEG:
        return sem._cmp_norm(sem.NEG[a.a[0]], a.a[1], a.a[2])
    if a.op == 'is':
        o = {'Some': 'None', 'None': 'Some', 'Ok': 'Err', 'Err': 'Ok'}.get(a.a[1])
        return mk('is', a.a[0], o) if o else None
    if a.op == 'bool':
        return mk('bool', a.a[0], not a.a[1])
    if a.op in ('empty', 'nonempty'):
        return mk('nonempty' if a.op == 'empty' else 'empty', a.a[0])
    return None


def uncovered(dnfs, given=(), ignore=lambda a: False):
    """an assignment of the guard atoms under which `given` holds and none of the dnfs does; None if they cover."""
    base, pol = [], {}
    for d in list(dnfs) + [frozenset([frozenset(given)])]:
        for c in d:
            for a in c:
                if a in pol or ignore(a):
                    continue
                n = negate(a)
                pol[a] = (len(base), True)
                if n is not None:
                    pol[n] = (len(base), False)
                base.append(a)
    if len(base) > 14:
        return None
    for m in range(1 << len(base)):
        def val(a):
            if ignore(a):
                return True
            i, p = pol[a]
            return bool(m >> i & 1) == p
        if not all(val(a) for a in given):
            continue
        if not any(all(val(a) for a in c) for d in dnfs for c in d):
            return [a if m >> i & 1 else (negate(a) or mk('not', a)) for i, a in enumerate(base)]
    return None


TREE = ('MonoReadHandle::get_and', 'MonoReadHandle::for_each', 'CoverTreeParameters::internal_index')


def is_node(t):
    """address term A if t is (the payload of) a node lookup node(layers, A)"""
    t = strip(t)
    if t.op == 'call' and t.a[0] == 'node':
        return t.a[1][1]
    return None


def tup(t, i):
    return sem.field(t, str(i))


def loopish(a):
    return a.op in ('each', 'try')


# ---- vectors filled in a loop --------------------------------------------------

def subst(t, m, memo=None):
    """rebuild t with the terms of m replaced"""
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


def _subst(x, m, memo):
    if isinstance(x, T):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is not None:
            return r
        memo[x] = x
        a = tuple(_subst(y, m, memo) for y in x.a)
        r = x if a == x.a else rebuild(x.op, a)
        memo[x] = r
        return r
    if isinstance(x, tuple):
        return tuple(_subst(y, m, memo) for y in x)
    if isinstance(x, frozenset):
        return frozenset(_subst(y, m, memo) for y in x)
    return x


def rebuild(op, a):
    if op == 'elem':
        return sem.elem(a[0])
    if op == 'payload':
        return payload(a[0])
    if op == 'field':
        return sem.field(a[0], a[1])
    if op == 'index':
        return sem.index(a[0], a[1])
    return mk(op, *a)


GROW = ('push', 'push_back', 'extend', 'extend_from_slice', 'append', 'insert')
SHRINK = ('pop', 'clear', 'truncate', 'drain', 'remove', 'swap_remove', 'retain', 'resize', 'dedup', 'sort', 'sort_by', 'sort_unstable',
          'sort_by_key', 'reverse', 'push_front', 'pop_front', 'pop_back', 'split_off', 'swap')


def collected(evs):
    """{new(Vec): mapped(source, value)} for vectors whose only growth is one push per loop turn (or one extend)"""
    by, creat = {}, {}
    for e in evs:
        if e.kind != 'call':
            continue
        if e.name in sem.ALLOC and e.body is not None:
            creat[(e.name, '%s@bb%d' % (e.chain[-1][0].name, e.chain[-1][1]))] = must_atoms(e.guard)
        if not e.args:
            continue
        v = strip_mut(e.args[0])
        if v.op == 'new':
            by.setdefault(v, []).append(e)
    out = {}
    for v, es in by.items():
        muts = [e for e in es if e.name.split('::')[-1] in GROW + SHRINK]
        if len(muts) != 1 or v.a[0] == 'alloc::exchange_malloc':
            continue
        e = muts[0]
        meth = e.name.split('::')[-1]
        if meth in ('extend', 'extend_from_slice'):
            if not is_loop_guard(e.guard):
                out[v] = strip_mut(e.args[1])
            continue
        if meth not in ('push', 'push_back'):
            continue
        base = creat.get((v.a[0], v.a[1]), frozenset())
        loops = [a for a in must_atoms(e.guard) if a.op == 'each' and a not in base]
        if len(loops) != 1 or mentions(e.args[1], lambda x: x is v):
            continue
        src = loops[0].a[0]
        if src.op == 'enumerate' and not mentions(e.args[1], lambda x: x.op == 'idx'):
            src = src.a[0]
        other = [a for c in e.guard for a in c if not loopish(a) and a not in base]
        if other:
            src = mk('filtered', src, mk('cond', e.guard))
        if not other and e.args[1] is sem.elem(src):
            out[v] = src
        else:
            out[v] = mk('mapped', src, strip_mut(e.args[1]))
    return out


class NEvent:
    """event with collected vectors replaced"""

    def __init__(self, e, m, memo):
        self.kind, self.body, self.chain = e.kind, e.body, e.chain
        for f in ('args', 'guard', 'val', 'lval', 'name', 'full'):
            if hasattr(e, f):
                x = getattr(e, f)
                setattr(self, f, _subst(x, m, memo) if f in ('args', 'guard', 'val', 'lval') else x)
        self.e = e

    def where(self):
        return self.e.where()

    def __repr__(self):
        return repr(self.e)


def nevents(evs):
    m = collected(evs)
    if not m:
        return evs, m
    memo = {}
    for _ in range(3):
        m2 = {k: _subst_inner(k, v, m) for k, v in m.items()}
        if m2 == m:
            break
        m = m2
    return [NEvent(e, m, memo) for e in evs], m


def _subst_inner(k, v, m):
    return _subst(v, {a: b for a, b in m.items() if a is not k}, {})


def compares(t):
    """+1 if t orders two elements ascending (a against other(a)), -1 if descending, 0 unknown; with the key compared"""
    for x in subterms(t):
        if x.op == 'call' and x.a[0].split('::')[-1] in ('partial_cmp', 'cmp', 'total_cmp') and len(x.a[1]) == 2:
            a, b = strip_mut(x.a[1][0]), strip_mut(x.a[1][1])
            d = 1
            if mentions(a, lambda y: y.op == 'other') and not mentions(b, lambda y: y.op == 'other'):
                a, b, d = b, a, -1
            if not mentions(b, lambda y: y.op == 'other') or mentions(a, lambda y: y.op == 'other'):
                return 0, None
            if mentions(t, lambda y: y.op == 'call' and y.a[0].endswith('Ordering::reverse')):
                d = -d
            return d, a
    return 0, None


# ---- one-turn simulation of the vectors a function fills ---------------------------

def contribs(t, evs, base=None):
    """[(guard, value)] of what ends up in the sequence t: one entry per push/insert site or sequence concatenated"""
    t = strip_mut(t)
    if t.op == 'new':
        out = []
        for e in evs:
            if e.kind == 'write' and strip_mut(e.lval) is t and strip_mut(e.val).op == 'agg' and strip_mut(e.val).a[0] == 'array':
                out += [(e.guard, v) for _, v in strip_mut(e.val).a[1]]
            if e.kind != 'call' or not e.args or strip_mut(e.args[0]) is not t:
                continue
            meth = e.name.split('::')[-1]
            if meth in ('push', 'push_back'):
                out.append((e.guard, e.args[1]))
            elif meth in ('extend', 'extend_from_slice', 'append'):
                out += [(dnf_and(e.guard, g), v) for g, v in contribs(e.args[1], evs)]
            elif meth in SHRINK + ('insert',):
                raise Unknown(t)
        return out
    if t.op == 'chain':
        return contribs(t.a[0], evs) + contribs(t.a[1], evs)
    if t.op == 'agg' and t.a[0] == 'array':
        return [(TRUE, v) for _, v in t.a[1]]
    if t.op == 'phi':
        out = []
        for g, v in t.a[0]:
            if v.op == 'rec':
                raise Unknown(t)
            out += [(dnf_and(g, h), x) for h, x in contribs(v, evs)]
        return out
    if t.op in ('mapped', 'rev', 'filtered', 'enumerate') and strip_mut(t.a[0]).op in ('new', 'chain'):
        cs = contribs(t.a[0], evs)
        if t.op == 'mapped' and cs:
            el = sem.elem(strip_mut(t.a[0]))
            return [(g, subst(t.a[1], {el: v})) for g, v in cs]
    return [(frozenset([frozenset([mk('each', t)])]), sem.elem(t))]


class Sim(Model):
    """a cell in which every loop runs over at most one element: the vectors a function fills are
    computed from the pushes that fire; leaf(t) decides base terms, each(seq) of base sequences included"""

    def __init__(self, evs, leaf):
        self.evs = evs
        self.base = leaf
        self._c = {}
        Model.__init__(self, self._leaf)

    def content(self, v):
        v = strip_mut(v)
        if v in self._c:
            r = self._c[v]
            if r is None:
                raise Unknown(v)
            return r
        self._c[v] = None
        out = []
        for g, x in contribs(v, self.evs):
            k = self.guard(g)
            if k is None:
                raise Unknown(v)
            if k:
                out.append(x)
        self._c[v] = out
        return out

    def _runs(self, t):
        t = strip_mut(t)
        k = self.base(mk('each', t))
        if k is not None:
            return k
        if t.op == 'filtered':
            r = self._runs(t.a[0])
            if r is not True:
                return r
            c = t.a[1]
            if c.op == 'cond':
                return self.guard(c.a[0])
            return bool(self.val(c))
        if t.op in ('mapped', 'enumerate', 'rev', 'sorted'):
            return self._runs(t.a[0])
        if t.op == 'zip':
            return self._runs(t.a[0]) and self._runs(t.a[1])
        if t.op in ('new', 'chain'):
            return len(self.content(t)) > 0
        if t.op == 'agg' and t.a[0] == 'array':
            return len(t.a[1]) > 0
        # the element looked at is one that a skip/take/step drops
        if t.op == 'stepby' or t.op == 'taken':
            return False
        if t.op == 'agg' and t.a[0].split('::')[-1] == 'Range':
            a, b = dict(t.a[1])['start'], dict(t.a[1])['end']
            ln = lin(b)
            if len(ln[0]) == 1 and list(ln[0].values()) == [1] and len_of(list(ln[0])[0]) is not None:
                if intval(a) is not None and (intval(a) > 0 or ln[1] < 0):
                    return False
        raise Unknown(t)

    def _leaf(self, t):
        v = self.base(t)
        if v is not None:
            return v
        if t.op == 'each':
            return self._runs(t.a[0])
        if t.op in ('empty', 'nonempty') and strip_mut(t.a[0]).op in ('new', 'chain', 'phi'):
            return (len(self.content(t.a[0])) > 0) == (t.op == 'nonempty')
        n = len_of(t)
        if n is not None and strip_mut(n).op in ('new', 'chain', 'phi'):
            return len(self.content(n))
        if t.op == 'elem' and strip_mut(t.a[0]).op in ('new', 'chain'):
            c = self.content(t.a[0])
            if len(c) == 1:
                return self.val(c[0])
        if t.op == 'narrow':
            return self.val(t.a[0])
        if t.op == 'call' and t.a[0] in ('Iterator::any', 'Iterator::all') and len(t.a[1]) == 2:
            r = self._runs(t.a[1][0])
            if r is None:
                raise Unknown(t)
            v = r and bool(self.val(t.a[1][1]))
            return v if t.a[0].endswith('any') else (not r or bool(self.val(t.a[1][1])))
        return None

    def fired(self, evs):
        """events that happen in this cell; Unknown if one cannot be decided"""
        out = []
        for e in evs:
            k = self.guard(e.guard)
            if k is None:
                raise Unknown(e)
            if k:
                out.append(e)
        return out

    def term(self, t):
        """the term with elements of filled vectors and phis resolved in this cell"""
        memo = {}

        def go(x):
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            if not isinstance(x, T):
                return x
            if x in memo:
                return memo[x]
            memo[x] = x
            r = None
            if x.op == 'phi':
                r = x
                for g, v in early(x.a[0]):
                    k = self.guard(g)
                    if k is True:
                        r = go(v)
                        break
                    if k is None:
                        break
            elif x.op == 'elem' and strip_mut(x.a[0]).op in ('new', 'chain'):
                try:
                    c = self.content(x.a[0])
                    if len(c) == 1:
                        r = go(strip_mut(c[0]))
                except Unknown:
                    pass
            elif x.op == 'mutref':
                r = go(x.a[1])
            if r is None:
                a = tuple(go(y) for y in x.a)
                r = x if a == x.a else rebuild(x.op, a)
            memo[x] = r
            return r
        return go(strip_mut(t))


# ---- loops ---------------------------------------------------------------------

def in_cycle(e):
    """the event can be executed repeatedly (some frame of its chain is in a cycle)"""
    for b, k, s in e.chain:
        cfg = _cfg(b)
        if _reaches(cfg, k):
            return True
    return is_loop_guard(e.guard)


def _reaches(cfg, k):
    return _reach(cfg, k, k)


def _reach(cfg, s, k):
    seen, st = set(), [s]
    while st:
        v = st.pop()
        for w in cfg.full_succ.get(v, []):
            if w == k:
                return True
            if w in cfg.nodes and w not in seen:
                seen.add(w)
                st.append(w)
    return False


def event_reaches(e1, e2):
    """e2 can be executed after e1 on some path, loops included"""
    for (x, y) in zip(e1.chain, e2.chain):
        (b1, k1, s1), (b2, k2, s2) = x, y
        if x == y:
            if _reaches(_cfg(b1), k1):
                return True
            continue
        if b1 is not b2:
            return True
        if k1 == k2 and s1 < s2:
            return True
        return _reach(_cfg(b1), k1, k2)
    return len(e1.chain) < len(e2.chain)


def event_after(e, es):
    """e is only executed once all of es are over"""
    return all(event_reaches(x, e) and not event_reaches(e, x) for x in es)


def frames_of(fr, seen=None):
    """fr and the frames of the callees inlined in it"""
    if seen is None:
        seen = set()
    if id(fr) in seen or len(seen) > 400:
        return
    seen.add(id(fr))
    yield fr
    for e, subs in fr.local_events():
        for f, g in subs:
            yield from frames_of(f, seen)


def occurrences(t, cap=200):
    """subterms with repetition"""
    st, n = [t], 0
    while st and n < cap:
        x = st.pop()
        if isinstance(x, T):
            n += 1
            yield x
            st.extend(x.a)
        elif isinstance(x, (tuple, frozenset)):
            st.extend(x)


def smallest_loop(evs, dv, iv):
    """does a hand written loop keep the smallest of the elements dv with its position iv?  None: no such loop seen.
    Returns (verdict, event, detail)"""
    ds = [e for e in evs if e.kind == 'set' and dv(strip_mut(e.val)) and any(a.op == 'each' for a in must_atoms(e.guard))]
    js = [e for e in evs if e.kind == 'set' and iv(strip_mut(e.val)) and any(a.op == 'each' for a in must_atoms(e.guard))]
    if not ds or not js:
        return None, None, 'no loop keeping the smallest'
    for e in ds + js:
        depth = sum(1 for b, k, _ in e.chain for l in _cfg(b).loops().values() if k in l)
        if depth < len([a for a in must_atoms(e.guard) if a.op == 'each' and strip_mut(a.a[0]).op != 'unit']) - sum(1 for b, k, _ in e.chain[1:] if '{closure' in b.name):
            return False, e, 'the search stops at the first candidate accepted'
    names = {e.lval.a[1] for e in ds if e.lval.op == 'var'}
    held = lambda t: t.op == 'rec' and t.a[1] in names
    for e in ds + js:
        if not any(mentions(a, held) for c in e.guard for a in c):
            return False, e, 'a candidate is accepted whatever was found before'
    for d in (1.0, 5.0):
        def leaf(t):
            if dv(t):
                return d
            if t.op == 'is':
                return t.a[1] in ('Some', 'Ok')
            if t.op == 'rec' and t.a[1] in names:
                return 3.0
            if t.op == 'phi' and any(x.op == 'rec' and x.a[1] in names for x in variants(t)):
                return 3.0
            return None
        m = Model(leaf)
        for e in ds + js:
            k = m.guard(e.guard)
            if k is None:
                return None, e, 'condition'
            if k != (d < 3):
                return False, e, 'a candidate at %s %s the one at 3.0' % (d, 'replaces' if k else 'does not replace')
    return True, ds[0], ''


def exits_of(fr, marker):
    """loop_exits in whichever inlined frame holds the marker"""
    out = []
    for f in frames_of(fr):
        if any(marker(e) for e, _ in f.local_events()):
            out += loop_exits(f, marker)
    return out


def values(t, evs, _seen=None):
    """all values a term may take, loop-carried variables replaced by what is assigned to them; a term that stays
    recursive is dropped"""
    seen = _seen if _seen is not None else set()
    out = []
    for v in variants(t):
        fs = []
        x = v
        wrap = []
        while x.op in ('field', 'payload', 'some', 'ok'):
            wrap.append((x.op, x.a[1] if x.op == 'field' else None))
            x = strip_mut(x.a[0])
        if x.op == 'phi':
            vs = []
            for y in variants(x):
                for op, f in reversed(wrap):
                    y = sem.field(y, f) if op == 'field' else payload(y) if op == 'payload' else mk(op, y)
                vs.append(y)
            for y in vs:
                if y not in seen:
                    seen.add(y)
                    out += values(y, evs, seen)
            continue
        if x.op == 'rec':
            if (v,) in seen:
                continue
            seen.add((v,))
            for e in evs:
                if e.kind == 'set' and e.lval.op == 'var' and e.lval.a[0] == x.a[0] and e.lval.a[1] == x.a[1]:
                    y = strip_mut(e.val)
                    for op, f in reversed(wrap):
                        y = sem.field(y, f) if op == 'field' else payload(y) if op == 'payload' else mk(op, y)
                    out += values(y, evs, seen)
            continue
        out.append(v)
    r = []
    for v in out:
        if v not in r:
            r.append(v)
    return r


# ---- the state an update leaves behind ------------------------------------------------

def post_states(evs, init, read, effect):
    """state after the events fire in order, from init; guards are read on the state before the call and on the
    running one (terms carry no versions), values on the running one.  read(t, state) decides base terms,
    effect(e, sim, state) applies one fired event.  -> list of the possible results"""
    outs = []
    for mode in ('pre', 'cur'):
        st = dict(init)
        frozen = Sim(evs, lambda t: read(t, init))
        for e in evs:
            cur = Sim(evs, lambda t: read(t, st))
            k = (frozen if mode == 'pre' else cur).guard(e.guard)
            if k is None:
                if effect(e, cur, dict(st)):
                    raise Unknown(e)
                continue
            if k:
                effect(e, cur, st)
        if st not in outs:
            outs.append(st)
    return outs


def agree(outs, ok):
    """True if every reading satisfies ok, False if none does, else None"""
    v = [bool(ok(o)) for o in outs]
    return True if all(v) else False if not any(v) else None


def rng(t):
    """(kind, start term, end term) of a range"""
    t = strip_mut(t)
    if t.op == 'agg' and t.a[0].split('::')[-1].startswith('Range'):
        d = dict(t.a[1])
        return t.a[0].split('::')[-1], d.get('start'), d.get('end')
    if t.op == 'call' and t.a[0].endswith('RangeInclusive::new'):
        return 'RangeInclusive', t.a[1][0], t.a[1][1]
    return None


CMP = {'Eq': ('eq', 0, True), 'Ne': ('eq', 0, False), 'Lt': ('lt', 0, True), 'Ge': ('lt', 0, False), 'Gt': ('lt', 1, True), 'Le': ('lt', 1, False)}


def comparison(t):
    """(key, polarity) of a comparison: two comparisons of one key tell the same fact or its opposite"""
    if t.op == 'bin' and t.a[0] in CMP:
        op, x, y = t.a
    elif t.op in CMP and len(t.a) == 2:
        op, (x, y) = t.op, t.a
    else:
        return None
    k, flip, pol = CMP[op]
    x, y = strip_mut(x), strip_mut(y)
    if k == 'eq':
        return ('eq', frozenset((x, y))), pol
    return ('lt', y, x) if flip else ('lt', x, y), pol


def const_like(t):
    t = strip_mut(t)
    return not any(x.op in ('param', 'elem', 'call', 'field', 'rec', 'phi', 'payload', 'index', 'new', 'mut') for x in subterms(t))


def worlds(evs, content, cap=3):
    """assumptions on the comparisons, among the guards, of two values of the caller's data (content) or of one with a constant: each holds for some data"""
    keys = []
    for e in evs:
        for c in e.guard:
            for a in c:
                k = comparison(a)
                if k is None or k[0] in keys:
                    continue
                sides = list(k[0][1]) if k[0][0] == 'eq' else list(k[0][1:])
                if len(sides) == 2 and any(content(x) for x in sides) and all(content(x) or const_like(x) for x in sides):
                    keys.append(k[0])
    keys = keys[:cap]
    for vals in product((True, False), repeat=len(keys)):
        yield dict(zip(keys, vals))


def supposed(t, world):
    k = comparison(t)
    return None if k is None or k[0] not in world else world[k[0]] == k[1]
