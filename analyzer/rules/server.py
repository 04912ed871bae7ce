"""The server: one answer per request, routes, body reading, trackers, in-flight accounting, API answers."""
import re
import sem
from rules import prop
from sem import mk, alts, strip_mut, show, subterms, must_atoms, TRUE
from rulelib import *
from rules.cloud import is_err, okval
from rules.labels import is_none, okdeep

CR = 'serve_goko'
QUERIES = ('CoverTreeReader::knn', 'CoverTreeReader::routing_knn', 'CoverTreeReader::path', 'CoverTreeReader::get_node_label_summary',
           'CoverTreeReader::clone', 'CoverTreeWriter::reader')


def plain(t):
    """every part of the term is understood: a difference is a difference"""
    return not any(x.op in ('phi', 'rec', 'unknown', 'unknownarg', 'new', 'closure', 'idx', 'rangeidx', 'scan', 'reduced', 'fold', 'index') for x in subterms(t))


def same(t, pred):
    """True, False, or None when the term is not one the rule can read"""
    if pred(t):
        return True
    return False if plain(t) else None


def each_way(t, pred):
    """same, for whichever way a choice goes"""
    t = strip_mut(t)
    if t.op != 'phi':
        return same(t, pred)
    vs = [each_way(v, pred) for _, v in alts(t)]
    return False if False in vs else None if None in vs else True


def ends(t, *names):
    return isinstance(t, sem.T) and path(t)[-len(names):] == names


def callee(t):
    t = okdeep(t)
    return t.a[0] if t.op == 'call' else None


def failing(name, extra=None):
    """cell in which the calls named fail"""
    def leaf(t):
        if extra is not None:
            v = extra(t)
            if v is not None:
                return v
        if t.op == 'try' and is_call(t.a[0], name):
            return t.a[1] == 'err'
        if t.op == 'is' and is_call(t.a[0], name):
            return t.a[1] in ('Err', 'None')
        return None
    return leaf


def understood(t):
    return plain(t) or is_err(t)


def fails(S, ret):
    """does the function report a failure in this cell"""
    t = S.term(ret)
    while t.op in ('optmap', 'payload'):
        t = strip_mut(t.a[0])
    if is_err(t):
        return True
    if t.op in ('ok', 'agg'):
        return False
    return None


# ---- S07: what the queries answer ----------------------------------------------------

def answer(ctx, typ, query, out, elem_type, fields):
    b = ctx.body(typ, 'process', crate=CR)
    fr = ctx.frame(b, QUERIES)
    evs, m = ctx.nevents(b, QUERIES)
    ret = subst(fr.ret(), m)
    qs = calls(evs, query)
    ctx.tri('api/query', '%s asks the tree with %s' % (typ, query), True if len(qs) == 1 else None if qs or not any(calls(evs, q) for q in QUERIES[:3]) else False, b.name)
    if len(qs) != 1:
        return
    q = qs[0]
    ctx.tri('api/query', '%s: of the served tree' % typ, same(q.args[0], lambda t: path(t) == ('$1', 'tree')), q, show(q.args[0]))
    ctx.tri('api/query', '%s: for the point of the request' % typ, same(q.args[1], lambda t: path(t) == ('$0', 'point')), q, show(q.args[1]))
    if len(q.args) > 2:
        v = True
        for k in (0, 1, 5, 1000):
            try:
                got = Model(lambda t: k if path(t) == ('$0', 'k') else None).val(q.args[2])
            except Unknown:
                got = None
            if got is None:
                v = None
            elif got != k:
                v = False
                break
        ctx.tri('api/query', '%s: for the k of the request' % typ, v, q, show(q.args[2]))
    qt = mk('call', q.name, tuple(q.args))
    S = Sim(evs, lambda t: None)
    t = S.term(ret)
    r = okval(t)
    if r.op != 'agg' or out not in dict(r.a[1]):
        return ctx.undecided('%s::process returns %s' % (typ, show(t)))
    seq = okval(dict(r.a[1])[out])
    order = True
    src = seq
    while src.op in ('rev', 'sorted', 'filtered', 'taken', 'stepby', 'enumerate') or (src.op == 'mapped' and okdeep(src.a[0]) is not okdeep(qt)):
        if src.op in ('rev', 'filtered', 'taken', 'stepby', 'sorted'):
            order = False
        src = strip_mut(src.a[0])
    if order and is_call(seq, 'filter_map', 'filter'):
        order = None
    if src.op != 'mapped':
        if src.op == 'agg' and src.a[0] == 'array':
            return ctx.ob('api/answer', '%s: every result of the query, in its order' % typ, False, b.name, show(seq))
        return ctx.undecided('%s::process answers %s' % (typ, show(seq)))
    base = src
    inner = strip_mut(base.a[0])
    okb = okdeep(inner) is okdeep(qt)
    ctx.tri('api/answer', '%s: every result of the query, in its order' % typ, False if not order and order is not None else (True if okb else None) if order else None, b.name, show(seq))
    el = okval(S.term(base.a[1]))
    if el.op != 'agg' or set(dict(el.a[1])) != set(fields):
        return ctx.undecided('%s element %s' % (typ, show(el)))
    d = dict(el.a[1])
    E = sem.elem(inner)
    for f, want in fields.items():
        v = strip_mut(d[f])
        ctx.tri('api/answer', '%s: the %s of each result' % (typ, f), each_way(v, lambda t: want(t, E)), b.name, show(v))
    # failures are passed on
    for nm in (query, 'PointCloud::name'):
        try:
            v = fails(Sim(evs, failing(nm)), ret)
        except Unknown:
            v = None
        if nm == 'PointCloud::name' and v is not True:
            # a failure inside the closure is in the collected sequence: the collected result must be passed on with ?
            raw = [x for x in subterms(ret) if x.op == 'mapped' and okdeep(x.a[0]) is okdeep(inner)]
            el2 = Sim(evs, failing(nm)).term(raw[0].a[1]) if raw else None
            v = None if el2 is None else True if is_err(el2) and is_res(ret, base) else False if not is_err(el2) and not mentions(el2, lambda x: is_call(x, nm)) else None
        ctx.tri('api/failure', '%s: a failure of %s is reported' % (typ, nm), v, b.name)


def is_res(ret, seq):
    """the function returns the failure of collecting seq"""
    return any(x.op in ('residual', 'err') and mentions(x, lambda y: y.op == 'mapped' and strip_mut(y.a[0]) is strip_mut(seq.a[0])) for _, x in alts(strip_mut(ret)))


def proj(t, E, *ix):
    """t is E.ix..."""
    t = okdeep(t)
    for i in reversed(ix):
        if t.op != 'field' or str(t.a[1]) != str(i):
            return False
        t = okdeep(t.a[0])
    return t is okdeep(E)


def named(*ix):
    return lambda t, E: is_call(t, 'PointCloud::name') and ends(okdeep(t).a[1][0], 'parameters', 'point_cloud') and proj(okdeep(t).a[1][1], E, *ix)


def label_summary(t, E):
    while t.op in ('optmap', 'payload', 'some'):
        t = strip_mut(t.a[0])
    if not is_call(t, 'CoverTreeReader::get_node_label_summary'):
        return False
    a = strip_mut(t.a[1][1])
    if a.op == 'agg':
        x = [v for _, v in a.a[1]]
        return len(x) == 2 and proj(x[0], E, 1, 0) and proj(x[1], E, 1, 1)
    return proj(a, E, 1)


@prop('S07')
def s07(ctx):
    nd = {'name': named(1), 'distance': lambda t, E: proj(t, E, 0)}
    answer(ctx, 'KnnRequest', 'CoverTreeReader::knn', 'knn', 'NamedDistance', nd)
    answer(ctx, 'RoutingKnnRequest', 'CoverTreeReader::routing_knn', 'routing_knn', 'NamedDistance', nd)
    answer(ctx, 'PathRequest', 'CoverTreeReader::path', 'path', 'NodeDistance',
           {'name': named(1, 1), 'distance': lambda t, E: proj(t, E, 0), 'layer': lambda t, E: proj(t, E, 1, 0), 'label_summary': label_summary})
    b = ctx.body('ParametersRequest', 'process', crate=CR)
    fr = ctx.frame(b)
    r = okval(fr.ret())
    if r.op != 'agg':
        ctx.undecided('ParametersRequest::process %s' % show(r))
    else:
        for f, v in r.a[1]:
            ctx.tri('api/parameters', 'ParametersRequest: %s of the served tree' % f, same(strip_mut(v), lambda t: path(t) == ('$1', 'tree', 'parameters', f)), b.name, show(v))


# ---- S06: trackers ---------------------------------------------------------------------

TR = ('CoverTreeReader::path', 'BayesCategoricalTracker::add_path', 'BayesCategoricalTracker::kl_div_stats', 'BayesCategoricalTracker::kl_div',
      'BayesCategoricalTracker::new', 'CoverTreeReader::clone')


def tracker_leaf(req, kind, have, empty):
    def known(t):
        t = okdeep(t)
        return t.op == 'call' and t.a[0].split('::')[-1] in ('get', 'get_mut', 'contains_key', 'entry', 'remove', 'insert') and t.a[1] and selff(t.a[1][0], 'trackers')

    def leaf(t):
        if t.op == 'is':
            x = strip_mut(t.a[0])
            if x is req:
                return t.a[1] == kind
            if known(x):
                if t.a[1] in ('Some', 'Occupied'):
                    return have
                if t.a[1] in ('None', 'Vacant'):
                    return not have
        if t.op == 'call' and known(t) and t.a[0].endswith('contains_key'):
            return have
        if t.op == 'call' and t.a[0].split('::')[-1] == 'is_empty' and selff(t.a[1][0], 'trackers'):
            return empty
        if t.op == 'call' and t.a[0].split('::')[-1] == 'len' and selff(t.a[1][0], 'trackers'):
            return 0 if empty else 1
        n = len_of(t)
        if n is not None and whole_map(n) or n is not None and selff(n, 'trackers'):
            return 0 if empty else 1
        if t.op in ('empty', 'nonempty') and (whole_map(t.a[0]) or selff(t.a[0], 'trackers')):
            return (t.op == 'empty') == empty
        if t.op == 'each':
            return (not empty) if whole_map(t.a[0]) else None
        if t.op == 'call' and t.a[0] in ('Iterator::any', 'Iterator::all'):
            return None
        return None
    return leaf


def whole_map(t):
    t = strip_mut(t)
    if selff(t, 'trackers'):
        return True
    return t.op == 'call' and t.a[0].split('::')[-1] in ('values_mut', 'iter_mut', 'values', 'iter', 'keys') and selff(t.a[1][0], 'trackers')


def window(t, req, kind):
    """the window size the request names"""
    t = okdeep(t)
    return t.op == 'field' and t.a[1] == 'window_size' and okdeep(t.a[0]).op == 'vfield' and okdeep(t.a[0]).a[1] == kind


@prop('S06')
def worker(ctx):
    b = ctx.body('TrackerWorker', 'process', 'InternalService', crate=CR)
    fr, evs = ctx.frame(b, TR), ctx.events(b, TR)
    ret = fr.ret()
    req = sem.field(fr.args[1], 'request')
    name = sem.field(fr.args[1], 'tracker_name')

    def cell(kind, have, empty):
        S = Sim(evs, tracker_leaf(req, kind, have, empty))
        return S, S.term(ret), [e for e in evs if e.kind == 'call' and S.guard(e.guard)], [e for e in evs if e.kind == 'call' and S.guard(e.guard) is None and e.args and (mentions(e.args[0], lambda x: selff(x, 'trackers')) or e.name == 'BayesCategoricalTracker::add_path')]
    R = 'tracker/'

    def resp(t, variant):
        """fields of the response"""
        r = okval(t)
        if r.op == 'agg' and r.a[0].split('::')[-1] == variant:
            d = [v for _, v in r.a[1]]
            if variant == 'Unknown':
                return d
            x = strip_mut(d[0])
            return dict(x.a[1]) if x.op == 'agg' else None
        return False if (r.op == 'agg' and 'TrackingResponse' in r.a[0]) or is_err(t) else None
    MUT = ('insert', 'remove', 'clear', 'drain', 'retain', 'remove_entry')

    def changes(fired):
        return [e for e in fired if e.name.split('::')[-1] in MUT + ('or_insert_with', 'or_insert') and mentions(e.args[0], lambda x: selff(x, 'trackers'))]
    # a point or a path to track
    for kind, src in (('TrackPoint', 'the point of the request'), ('TrackPath', 'the path of the request')):
        for empty in (False, True):
            S, t, fired, unk = cell(kind, not empty, empty)
            d = resp(t, 'TrackPath')
            cell_n = '%s%s' % (kind, ', no window' if empty else '')
            if d is None or d is False:
                ctx.tri(R + 'answer', '%s is answered with TrackPath' % cell_n, d, b.name, show(t))
            elif kind == 'TrackPoint' or not empty:
                try:
                    ok = S.val(d['success']) is (not empty)
                except Unknown:
                    ok = None
                ctx.tri(R + 'answer', '%s: success exactly when there is a window to track in' % cell_n, ok, b.name, show(d['success']))
            ctx.tri(R + 'windows', '%s leaves the set of windows alone' % cell_n, None if unk else not changes(fired), (changes(fired) or [None])[0])
            if empty:
                continue
            ap = [e for e in fired if e.name == 'BayesCategoricalTracker::add_path']
            if any(e.name == 'BayesCategoricalTracker::add_path' for e in unk):
                ctx.undecided('%s add_path' % kind)
                continue
            if len(ap) != 1:
                ctx.ob(R + 'track', '%s is added to every window once' % kind, False, b.name, '%d add_path' % len(ap))
                continue
            e = ap[0]
            loops = [a for a in must_atoms(e.guard) if a.op == 'each']
            el = strip_mut(e.args[0])
            while el.op == 'field' and str(el.a[1]) == '1':
                el = strip_mut(el.a[0])
            ok = None
            if el.op == 'elem':
                s = strip_mut(el.a[0])
                if whole_map(s):
                    ok = len(loops) == 1 or None
                elif s.op in ('filtered', 'taken', 'stepby'):
                    ok = False
            elif is_call(el, 'get', 'get_mut', 'next', 'HashMap::get_mut') or el.op == 'payload':
                ok = False
            ctx.tri(R + 'track', '%s is added to every window once' % kind, ok, e, show(e.args[0]))
            p = strip_mut(e.args[1])
            if kind == 'TrackPoint':
                ok = same(p, lambda t: is_call(t, 'CoverTreeReader::path') and selff(okdeep(t).a[1][0], 'reader') and ends(okdeep(t).a[1][1], 'point') and okdeep(okdeep(t).a[1][1].a[0]).op == 'vfield')
            else:
                ok = same(p, lambda t: ends(t, 'path') and okdeep(okdeep(t).a[0]).op == 'vfield')
            ctx.tri(R + 'track', '%s: what is added is the path of %s' % (kind, src), ok, e, show(p))
        if kind == 'TrackPoint':
            S = Sim(evs, failing('CoverTreeReader::path', tracker_leaf(req, kind, True, False)))
            ctx.tri(R + 'failure', 'TrackPoint: a failure to find the path is reported', fails(S, ret), b.name)
    # a window to add
    for have in (True, False):
        S, t, fired, unk = cell('AddTracker', have, False)
        d = resp(t, 'AddTracker')
        nm = 'AddTracker of a window it %s' % ('has' if have else 'does not have')
        if d is None or d is False:
            ctx.tri(R + 'answer', '%s is answered with AddTracker' % nm, d, b.name, show(t))
        else:
            try:
                v = S.val(d['success']) is (not have)
            except Unknown:
                v = None
            ctx.tri(R + 'answer', '%s: success %s' % (nm, 'false' if have else 'true'), v, b.name, show(d['success']))
        ch = changes(fired)
        if have:
            # or_insert_with on an entry that exists leaves it
            bad = [e for e in ch if not e.name.split('::')[-1].startswith('or_insert')]
            ctx.tri(R + 'windows', '%s leaves the windows alone' % nm, False if bad else None if unk else True, (bad or [None])[0], str(bad[:1])[:300])
        else:
            ins = [e for e in ch if e.name.split('::')[-1] in ('insert', 'or_insert', 'or_insert_with')]
            odd = [e for e in ch if e not in ins]
            if odd or not ins:
                ctx.tri(R + 'windows', '%s adds the window' % nm, None if unk and not odd else False, (odd or [None])[0] or b.name)
                continue
            e = ins[0]
            news = [x for x in fired if x.name == 'BayesCategoricalTracker::new']
            key = e.args[1] if len(e.args) == 3 else None
            if key is None:
                x = okdeep(e.args[0])
                key = next((y.a[1][1] for y in subterms(x) if y.op == 'call' and y.a[0].endswith('HashMap::entry')), None)
            ctx.tri(R + 'windows', '%s adds it under its size' % nm, same(key, lambda t: window(t, req, 'AddTracker')) if key is not None else None, e, str(key))
            if len(news) == 1:
                n = news[0]
                ctx.tri(R + 'windows', '%s: the tracker keeps that many' % nm, same(n.args[0], lambda t: window(t, req, 'AddTracker')), n, show(n.args[0]))
                ctx.tri(R + 'windows', '%s: of the served tree' % nm, same(n.args[1], lambda t: selff(t, 'reader') or (is_call(t, 'CoverTreeReader::clone', 'Clone::clone') and selff(t.a[1][0], 'reader')) or mentions(t, lambda x: selff(x, 'reader'))), n, show(n.args[1]))
            else:
                ctx.undecided('%s: %d trackers made' % (nm, len(news)))
    # the current numbers
    for have in (True, False):
        S, t, fired, unk = cell('CurrentStats', have, False)
        nm = 'CurrentStats of a window it %s' % ('has' if have else 'does not have')
        ctx.tri(R + 'windows', '%s changes nothing' % nm, False if changes(fired) or any(e.name.endswith('add_path') for e in fired) else None if unk else True, b.name)
        if have:
            d = resp(t, 'CurrentStats')
            if d is None or d is False:
                ctx.tri(R + 'answer', '%s gives its numbers' % nm, d, b.name, show(t))
                continue

            def from_window(x):
                x = okdeep(x)
                return x.op == 'call' and x.a[0].split('::')[-1] in ('get', 'get_mut') and selff(x.a[1][0], 'trackers') and window(x.a[1][1], req, 'CurrentStats')
            for f, v in d.items():
                v = strip_mut(v)
                if f == 'kl_div':
                    ok = same(v, lambda t: is_call(t, 'BayesCategoricalTracker::kl_div') and from_window(okdeep(t).a[1][0]))
                else:
                    ok = same(v, lambda t: t.op == 'field' and t.a[1] == f and is_call(t.a[0], 'BayesCategoricalTracker::kl_div_stats') and from_window(okdeep(t.a[0]).a[1][0]))
                if ok is None and v.op == 'index':
                    ok = None
                ctx.tri(R + 'answer', '%s: %s' % (nm, f), ok, b.name, show(v))
        else:
            d = resp(t, 'Unknown')
            if d is None or d is False:
                ctx.tri(R + 'answer', '%s is reported as unknown' % nm, d, b.name, show(t))
                continue
            ctx.tri(R + 'answer', '%s: names the tracker asked' % nm, same(d[0], lambda t: okdeep(t) is okdeep(name)), b.name, show(d[0]))
            ctx.tri(R + 'answer', '%s: names the window asked' % nm, same(d[1], lambda t: not is_none(t) and window(t, req, 'CurrentStats')), b.name, show(d[1]))



# ---- cells ---------------------------------------------------------------------------------

class Cell(Sim):
    """a cell whose leaf also decides what a choice between results is"""

    def _leaf(self, t):
        v = self.base(t)
        if v is not None:
            return v
        if t.op == 'try':
            x = strip_mut(t.a[0])
            if x.op in ('phi', 'optmap'):
                r = strip_mut(self.term(x))
                while r.op == 'optmap':
                    r = strip_mut(r.a[0])
                if r.op in ('ok', 'some'):
                    return t.a[1] == 'ok'
                if is_err(r) or is_none(r):
                    return t.a[1] == 'err'
                if r.op != 'phi' and r is not x:
                    return self.base(mk('try', r, t.a[1]))
        if t.op == 'is':
            x = strip_mut(t.a[0])
            if x.op in ('phi', 'optmap'):
                r = strip_mut(self.term(x))
                while r.op == 'optmap':
                    r = strip_mut(r.a[0])
                if r.op != 'phi':
                    if r.op == 'ok' or (r.op == 'agg' and r.a[0].endswith('::Ok')):
                        return t.a[1] in ('Ok', 'Ready')
                    if is_err(r):
                        return t.a[1] == 'Err'
                    if r.op == 'some':
                        return t.a[1] == 'Some'
                    if r.op == 'agg' and r.a[0].split('::')[-1][:1].isupper() and '::' in r.a[0]:
                        return t.a[1] == r.a[0].split('::')[-1]
                    return self.base(mk('is', r, t.a[1]))
            elif x.op == 'agg' and '::' in x.a[0]:
                return t.a[1] == x.a[0].split('::')[-1]
        if t.op == 'const' and t.a[0][:1] == '"':
            return t.a[0]
        return Sim._leaf(self, t)

    def which(self, evs):
        """(fired, undecided)"""
        f, u = [], []
        for e in evs:
            k = self.guard(e.guard)
            if k:
                f.append(e)
            elif k is None:
                u.append(e)
        return f, u


def coroutine(ctx, b, opaque=()):
    """the frame of the async body (or task) the function makes"""
    fs = ctx.engine(opaque).async_frames(b)
    if len(fs) != 1:
        raise Missing('%s: %d async bodies' % (b.name, len(fs)))
    fr = fs[0]
    evs = fr.events()
    ctx.sites += len(evs)
    for e in evs:
        if e.body is not None:
            ctx.functions[e.body.name] = 1
    return fr, evs


def awaited(t):
    """what the await of t gives: through payload(await(x))"""
    t = strip_mut(t)
    while t.op in ('payload', 'await', 'mutref', 'some', 'ok', 'optmap'):
        t = strip_mut(t.a[1] if t.op == 'mutref' else t.a[0])
    return t


def is_recv(t):
    return is_call(awaited(t), 'UnboundedReceiver::recv', 'Receiver::recv')


def is_taken(t, f):
    """Option::take / replace of field f of the received message"""
    t = strip(t)
    if t.op == 'call' and t.a[0] in ('Option::take', 'mem::take', 'Option::replace'):
        t = strip(t.a[1][0])
    return t.op == 'field' and t.a[1] == f and is_recv(t.a[0])


# ---- S01: one answer per request ------------------------------------------------------------

def loop(ctx, owner, opaque, what):
    """the worker answers each message once, and only stops when nobody can send any more"""
    b = ctx.body(owner, 'new', crate=CR)
    fr, evs = coroutine(ctx, b, opaque)
    sends = [e for e in evs if e.kind == 'call' and e.name == 'Sender::send']
    if not any(is_call(mk('call', e.name, e.args), 'UnboundedReceiver::recv') for e in evs if e.kind == 'call') or not sends:
        ctx.tri('reply/loop', '%s: the worker answers' % what, False if not sends and any(e.kind == 'call' and e.name.endswith('recv') for e in evs) else None, b.name)
        return None
    bad = []

    def step(s, e):
        if s.startswith('!'):
            return s
        if e.kind == 'call' and e.name.split('::')[-1] in ('recv', 'try_recv', 'poll_recv') and 'Receiver' in e.name:
            return '!a message is left unanswered when the next one is received' if s == 'owing' else 'idle'
        if e.kind == 'call' and e.name == 'Sender::send':
            if s == 'owing':
                return 'answered'
            if s == 'answered':
                return '!a message is answered twice'
        return s

    def edge(f, dnf, s):
        if s.startswith('!') or len(dnf) != 1:
            return s
        for a in next(iter(dnf)):
            if a.op == 'is' and is_taken(a.a[0], 'reply') and a.a[1] == 'None':
                return None
            if a.op == 'is' and is_taken(a.a[0], 'request'):
                if a.a[1] == 'Some' and s in ('idle', 'got'):
                    return 'owing'
                if a.a[1] == 'None' and s in ('idle', 'got'):
                    return None
            if a.op == 'is' and is_recv(a.a[0]) and strip_mut(a.a[0]).op in ('payload', 'await') and a.a[1] in ('None', 'Err') and not mentions(a.a[0], lambda x: x.op == 'field' and x.a[1] in ('reply', 'request')) and s == 'idle':
                return 'closed'
            if a.op == 'is' and is_recv(a.a[0]) and a.a[1] in ('Some', 'Ok') and s == 'idle' and not mentions(a.a[0], lambda x: x.op == 'field' and x.a[1] in ('reply', 'request')):
                return 'got'
        return s
    out = Flagged(step, edge=edge).run(fr, 'start')
    msg = {'owing': 'it stops with a message unanswered', 'start': 'it stops without receiving'}
    bad = sorted({msg.get(s, s[1:] if s.startswith('!') else 'it stops although more can be sent') for s in out if s != 'closed'})
    if not out:
        ctx.undecided('%s: the worker has no end' % what)
    else:
        ctx.ob('reply/loop', '%s: the worker answers every message once and stops only when nothing more can be sent' % what, not bad, b.name, '; '.join(bad))
    # what is sent goes back on the reply of the same message
    for i, e in enumerate(sends):
        ctx.tri('reply/own', '%s: the answer goes to the sender of that message (send %d)' % (what, i + 1), True if is_taken(e.args[0], 'reply') else False if plain(e.args[0]) and not mentions(e.args[0], is_recv) else None, e, show(e.args[0]))
    return b, fr, evs, sends


HTTP = ('CoreReader::process', 'service::parse_http', 'service::into_http')


def err_of(t, pred):
    """t is the failure of a term satisfying pred"""
    t = strip_mut(t)
    while True:
        if t.op == 'agg' and t.a[0].split('::')[-1] in ('Err', 'Underlying', 'Other') and len(t.a[1]) == 1:
            t = strip_mut(t.a[1][0][1])
        elif t.op in ('residual', 'err', 'optmap', 'payload', 'await'):
            if pred(t):
                return True
            t = strip_mut(t.a[0])
        else:
            return pred(t)


@prop('S01')
def http_worker(ctx):
    r = loop(ctx, 'GokoHttp', HTTP, 'http')
    if r is None:
        return
    b, fr, evs, sends = r
    parse = lambda t: is_call(awaited(t), 'parse_http')
    proc = lambda t: is_call(awaited(t), 'CoreReader::process')
    for nm, ok, kind, pok in (('an answered request', True, None, True), ('a request that fails', True, None, False),
                              ('a malformed query', False, 'MalformedQuery', None), ('a body that does not parse', False, 'Parse', None),
                              ('a missing body', False, 'MissingBody', None), ('a broken body', False, 'Http', None)):
        def leaf(t):
            if t.op == 'is':
                x = strip_mut(t.a[0])
                if t.a[1] in ('Ok', 'Err'):
                    if x.op != 'err' and parse(x):
                        return ok == (t.a[1] == 'Ok')
                    if x.op != 'err' and proc(x):
                        return pok == (t.a[1] == 'Ok')
                    if is_call(x, 'Sender::send'):
                        return t.a[1] == 'Ok'
                if t.a[1] in ('MalformedQuery', 'Parse', 'MissingBody', 'Http', 'Underlying') and x.op == 'err' and parse(x.a[0]):
                    return t.a[1] == kind
                if is_taken(x, 'request') or is_taken(x, 'reply'):
                    return t.a[1] == 'Some'
                if is_recv(x):
                    return t.a[1] in ('Some', 'Ok')
            if t.op == 'try' and parse(t.a[0]):
                return ok == (t.a[1] == 'ok')
            if t.op == 'try' and proc(t.a[0]):
                return pok == (t.a[1] == 'ok')
            return None
        C = Cell(evs, leaf)
        f, u = C.which(sends)
        key = 'http: %s' % nm
        if u or len(f) != 1:
            ctx.tri('reply/what', key, None if u else False, (f or [b.name])[0], '%d answers' % len(f))
            continue
        t = strip_mut(C.term(f[0].args[1]))
        into = is_call(t, 'into_http')
        arg = strip_mut(strip(t).a[1][0]) if into else None
        if ok and pok:
            v = True if into and arg.op == 'payload' and proc(arg) else None
            if v is None and plain(t):
                v = False
            okreq = None
            if v:
                p = awaited(arg)
                okreq = p.a[1][1].op == 'payload' and parse(p.a[1][1]) and is_taken(awaited(p.a[1][1]).a[1][0], 'request')
                v = True if okreq else None if not plain(t) else False
        elif ok:
            v = True if not into and err_of(t, lambda x: proc(x)) and not parse(t) else None
            if v is None and plain(t):
                v = False
        elif kind == 'MalformedQuery':
            v = None
            if into and arg.op == 'agg' and arg.a[0].endswith('GokoResponse::Unknown'):
                a0, a1 = [strip_mut(x) for _, x in arg.a[1]]
                v = intval(a1) == 404 and a0.op == 'vfield' and a0.a[1] == 'MalformedQuery'
            elif plain(t):
                v = False
        else:
            v = True if not into and is_err(t) and err_of(t, lambda x: parse(x)) else False if plain(t) else None
        ctx.tri('reply/what', key + {True: ' gets what processing it gives', False: ' gets the failure'}.get(pok if ok else (None if kind == 'MalformedQuery' else False), ' gets a 404 that says what is wrong'), v, f[0], show(t))


@prop('S01')
def internal_worker(ctx):
    r = loop(ctx, 'InternalServiceOperator', (), 'tracker')
    if r is None:
        return
    b, fr, evs, sends = r
    for e in sends:
        t = strip_mut(e.args[1])
        while t.op == 'optmap':
            t = strip_mut(t.a[0])
        ctx.tri('reply/what', 'tracker: gets what processing the request gives', same(t, lambda x: is_call(x, 'InternalService::process') and is_taken(okdeep(x).a[1][1], 'request')), e, show(t))


def issue(ctx, owner, msg_type):
    b = ctx.body(owner, 'message', crate=CR)
    fr, evs = ctx.frame(b), ctx.events(b)
    R = 'reply/issue'
    sends = [e for e in evs if e.kind == 'call' and e.name == 'UnboundedSender::send']
    chans = calls(evs, 'oneshot::channel')
    n = count_range(fr, lambda e: e.kind == 'call' and e.name == 'UnboundedSender::send')
    ctx.tri(R, '%s: a request is sent to the worker once' % owner, {x for x, _ in n} == {1} if sends else False if not mentions(fr.ret(), lambda x: x.op == 'closure') else None, b.name, str(n))
    if len(sends) != 1:
        return
    s = sends[0]
    ctx.tri(R, '%s: to its own worker' % owner, same(s.args[0], lambda t: selff(t, 'request_snd')), s, show(s.args[0]))
    m = strip_mut(s.args[1])
    r = strip_mut(fr.ret())
    if m.op != 'agg' or r.op != 'agg':
        return ctx.undecided('%s::message %s' % (owner, show(r)))
    d, rd = {k: strip_mut(v) for k, v in m.a[1]}, {k: strip_mut(v) for k, v in r.a[1]}
    ctx.tri(R, '%s: the message carries the request' % owner, same(d['request'], lambda t: t.op == 'some' and okdeep(t) is strip_mut(fr.args[1])), s, show(d['request']))
    half = lambda t, i: okdeep(t).op == 'field' and str(okdeep(t).a[1]) == str(i) and is_call(okdeep(t).a[0], 'oneshot::channel')
    ctx.tri(R, '%s: the message carries a reply channel' % owner, same(d['reply'], lambda t: t.op == 'some' and half(t, 0)), s, show(d['reply']))
    ctx.tri(R, '%s: the future waits on the other end of it' % owner, (same(rd['response'], lambda t: half(t, 1)) if len(chans) == 1 else None), b.name, show(rd['response']))
    snd = mk('call', s.name, tuple(s.args))
    for failed in (False, True):
        def leaf(t):
            if t.op == 'err' and is_call(t.a[0], 'UnboundedSender::send'):
                return ('Some', 'e') if failed else 'None'
            if t.op in ('is', 'try') and is_call(t.a[0], 'UnboundedSender::send') and strip_mut(t.a[0]).op != 'err':
                return (t.a[1] in ('Err', 'err')) == failed
            if t.op == 'is' and strip_mut(t.a[0]).op == 'err' and is_call(strip_mut(t.a[0]).a[0], 'UnboundedSender::send'):
                return (t.a[1] == 'Some') == failed
            if t.op == 'agg' and 'Error::' in t.a[0]:
                return 'e'
            if t.op == 'agg' and t.a[0].endswith('::None'):
                return 'None'
            return None
        try:
            v = (Cell(evs, leaf).val(rd['error']) is not None) == failed
        except Unknown:
            v = None
        ctx.tri(R, '%s: the future %s' % (owner, 'reports that the worker is gone' if failed else 'waits for the worker'), v, b.name, show(rd['error']))


def poll_cells(ctx, crate_path):
    b = [x for x in ctx.eng.find('ResponseFuture', 'poll', 'Future', CR) if crate_path in x.name or crate_path in str(x.loc if hasattr(x, 'loc') else '')]
    if len(b) != 1:
        raise Missing('ResponseFuture::poll in %s: %d' % (crate_path, len(b)))
    b = b[0]
    ctx.functions[b.name] = 1
    fr, evs = ctx.frame(b), ctx.events(b)
    aw = lambda t: strip_mut(t).op in ('await', 'payload') and selff(awaited(t), 'response')

    def depth(t):
        n, t = 0, strip_mut(t)
        while t.op == 'payload':
            n, t = n + 1, strip_mut(t.a[0])
        return n
    cells = []
    for nm, err, ready, rok in (('the worker is gone', True, None, None), ('no answer yet', False, False, None), ('answered', False, True, True), ('the worker dropped the request', False, True, False)):
        def leaf(t, err=err, ready=ready, rok=rok):
            if t.op == 'is':
                x = strip_mut(t.a[0])
                if (selff(x, 'error') or (is_call(x, 'Option::take', 'mem::take') and x.op == 'call' and selff(x.a[1][0], 'error'))) and t.a[1] in ('Some', 'None'):
                    return (t.a[1] == 'Some') == err
                if aw(x) and t.a[1] in ('Ready', 'Pending'):
                    return None if ready is None else (t.a[1] == 'Ready') == ready
                if aw(x) and depth(x) == 1 and t.a[1] in ('Ok', 'Err'):
                    return None if rok is None else (t.a[1] == 'Ok') == rok
            if t.op == 'ready' and aw(t.a[0]):
                return None if ready is None else (t.a[1] == 'Ready') == ready
            if t.op == 'try' and aw(t.a[0]):
                return None if rok is None else (t.a[1] == 'ok') == rok
            return None
        cells.append((nm, Cell(evs, leaf)))
    return b, fr, evs, cells, aw, depth


def delivered(ctx, where):
    b, fr, evs, cells, aw, depth = poll_cells(ctx, where)
    for nm, C in cells:
        t = strip_mut(C.term(fr.ret()))
        k = '%s future, %s' % (where, nm)
        if nm == 'no answer yet':
            v = True if t.op == 'agg' and t.a[0].endswith('Pending') or (t.op in ('optmap', 'await') and aw(awaited_top(t))) else False if t.op == 'ok' else None
        else:
            inner = strip_mut(t.a[1]) if t.op == 'optmap' else strip_mut(t.a[0]) if t.op == 'ok' else t
            if t.op == 'agg' and t.a[0].endswith('Pending'):
                v = False
            elif nm == 'answered':
                while inner.op == 'optmap':
                    inner = strip_mut(inner.a[0])
                v = True if aw(inner) and depth(inner) == 2 else False if is_err(inner) else None
            elif nm == 'the worker is gone':
                v = True if is_err(inner) else False if inner.op == 'ok' else None
            else:
                v = True if is_err(inner) else False if inner.op == 'ok' else None
        ctx.tri('reply/deliver', k + {'no answer yet': ': pending', 'answered': ': the answer', }.get(nm, ': a failure'), v, b.name, show(t))


def awaited_top(t):
    t = strip_mut(t)
    while t.op == 'optmap':
        t = strip_mut(t.a[0])
    return t


@prop('S01')
def issued(ctx):
    issue(ctx, 'GokoHttp', 'HttpMessage')
    issue(ctx, 'InternalServiceOperator', 'Message')
    b = ctx.body('GokoHttp', 'call', 'Service', crate=CR)
    fr = ctx.frame(b, ('GokoHttp::message',))
    t = strip_mut(fr.ret())
    ctx.tri('reply/issue', 'GokoHttp::call issues the request it is given', same(t, lambda t: is_call(t, 'GokoHttp::message') and t.a[1][1] is fr.args[1]), b.name, show(t))
    delivered(ctx, 'http')
    delivered(ctx, 'core')


# ---- S04: requests in flight -------------------------------------------------------------------

@prop('S04')
def in_flight(ctx):
    counters = ('in_flight', 'flight_counter')
    amount = lambda e: intval(e.args[1]) if len(e.args) > 1 else None
    OPS = ('fetch_add', 'fetch_sub', 'store', 'swap', 'fetch_max', 'fetch_min', 'compare_exchange', 'fetch_update', 'compare_and_swap', 'fetch_and', 'fetch_or', 'fetch_xor')
    ats = lambda evs: [e for e in evs if e.kind == 'call' and e.name.startswith('AtomicU32::') and e.name.split('::')[-1] in OPS and e.args and path_last(e.args[0]) in counters]
    for owner in ('GokoHttp', 'InternalServiceOperator'):
        b = ctx.body(owner, 'message', crate=CR)
        fr, evs = ctx.frame(b), ctx.events(b)
        es = ats(evs)

        def step(s, e):
            if e in hit:
                k = hit[e]
                return None if k is None else min(9, max(-9, s + k))
            return s
        hit = {}
        unk = False
        for e in es:
            a = amount(e)
            op = e.name.split('::')[-1]
            if op == 'fetch_add' and a is not None:
                hit[e] = a
            elif op == 'fetch_sub' and a is not None:
                hit[e] = -a
            else:
                unk = True
        tot = Typestate(step).run(fr, 0)
        ctx.tri('flight/count', '%s::message adds one request in flight' % owner, None if unk else tot == frozenset([1]), (es or [b.name])[0], str(sorted(tot)))
        r = strip_mut(fr.ret())
        if r.op == 'agg' and 'flight_counter' in dict(r.a[1]):
            v = strip_mut(dict(r.a[1])['flight_counter'])
            ctx.tri('flight/same', '%s: the future counts on the same counter' % owner, same(v, lambda t: selff(t, 'in_flight')), b.name, show(v))
        else:
            ctx.undecided('%s::message returns %s' % (owner, show(r)))
        nb = ctx.body(owner, 'new', crate=CR)
        nr = strip_mut(ctx.frame(nb, HTTP).ret())
        if nr.op == 'agg' and 'in_flight' in dict(nr.a[1]):
            v = strip_mut(dict(nr.a[1])['in_flight'])
            while v.op == 'call' and v.a[0] in ('Arc::new', 'AtomicU32::new'):
                v = strip_mut(v.a[1][0])
            ctx.tri('flight/start', '%s: none in flight at first' % owner, None if intval(v) is None else intval(v) == 0, nb.name, show(v))
        else:
            ctx.undecided('%s::new returns %s' % (owner, show(nr)))
    for where in ('http', 'core'):
        b, fr, evs, cells, aw, depth = poll_cells(ctx, where)
        es = ats(evs)
        for nm, C in cells:
            f, u = C.which(es)
            want = 0 if nm == 'no answer yet' else -1
            tot = 0
            for e in f:
                a, op = amount(e), e.name.split('::')[-1]
                tot = None if tot is None or a is None or op not in ('fetch_add', 'fetch_sub') else tot + (a if op == 'fetch_add' else -a)
            if any(in_cycle(e) for e in f):
                tot = None
            v = None if u or tot is None else tot == want
            ctx.tri('flight/count', '%s future, %s: %s' % (where, nm, 'still in flight' if want == 0 else 'one fewer in flight'), v, (f or [b.name])[0], str(tot))
    b = ctx.body('GokoHttp', 'load', 'Load', crate=CR)
    t = strip_mut(ctx.frame(b).ret())
    ctx.tri('flight/load', 'load is the number of requests in flight', same(t, lambda t: is_call(t, 'AtomicU32::load') and selff(okdeep(t).a[1][0], 'in_flight')), b.name, show(t))
    # nobody else touches the counters
    odd = []
    for x in ctx.eng.bodies:
        if x.crate != CR or x.name in ctx.functions:
            continue
        try:
            es = ats(ctx.engine((), 0).frame(x).events())
        except Exception:
            continue
        odd += es
    ctx.ob('flight/only', 'the counters change only when a request is issued or its future is done', not odd, (odd or [None])[0], str(odd[:1])[:300])


def path_last(t):
    t = strip_mut(t)
    while t.op in ('mutref', 'payload', 'some', 'ok'):
        t = strip_mut(t.a[1] if t.op == 'mutref' else t.a[0])
    return t.a[1] if t.op == 'field' else None


# ---- S03: routes ---------------------------------------------------------------------------------

METHODS = ['OPTIONS', 'GET', 'POST', 'PUT', 'DELETE', 'HEAD', 'TRACE', 'CONNECT', 'PATCH']
ROUTES = {('GET', '/'): 'Parameters', ('GET', '/knn'): 'Knn', ('GET', '/routing_knn'): 'RoutingKnn', ('GET', '/path'): 'Path',
          ('POST', '/track/add'): 'AddTracker', ('POST', '/track/point'): 'TrackPoint', ('GET', '/track/stats'): 'CurrentStats'}


def req_method(t):
    t = strip(t)
    while t.op == 'field':
        t = strip(t.a[0])
    return t.op == 'call' and t.a[0].endswith('Request::method')


def group_of(t):
    """name of the capture group a term reads, or None"""
    t = okdeep(t)
    if t.op == 'index' and t.a[1].op == 'const' and t.a[1].a[0][:1] == '"' and is_call(t.a[0], 'Regex::captures'):
        return t.a[1].a[0].strip('"')
    if t.op == 'call' and t.a[0].split('::')[-1] in ('name', 'as_str', 'parse', 'unwrap', 'to_string'):
        for x in t.a[1]:
            if isinstance(x, sem.T) and x.op == 'const' and x.a[0][:1] == '"':
                return x.a[0].strip('"')
        return group_of(t.a[1][0])
    return None


def parsed(t):
    """group whose text the term parses"""
    t = strip(t)
    if t.op == 'call' and t.a[0].split('::')[-1] in ('parse', 'from_str'):
        return group_of(t.a[1][0])
    return None


def route_leaf(method, upath, given):
    """given: group -> 'absent' | 'ok' | 'bad'"""
    def leaf(t):
        if t.op == 'is' and req_method(t.a[0]):
            k = t.a[1]
            if str(k).isdigit():
                return METHODS.index(method) == int(k)
            return str(k).upper() == method or None
        if t.op == 'call' and t.a[0].endswith('Uri::path'):
            return '"%s"' % upath
        if t.op == 'call' and t.a[0].endswith('Request::method'):
            return method
        if t.op == 'const' and re.search(r'Method::([A-Z]+)$', t.a[0]):
            return t.a[0].split('::')[-1]
        if t.op in ('is', 'try'):
            x = strip(t.a[0])
            good = t.a[1] in ('Some', 'Ok', 'ok')
            if t.op == 'is' and t.a[1] not in ('Some', 'None', 'Ok', 'Err'):
                return None
            g = parsed(x)
            if g in given:
                return good == (given[g] == 'ok')
            if is_call(x, 'Regex::captures', 'Regex::captures_iter'):
                g = captured(x)
                if g in given:
                    return good == (given[g] != 'absent')
            if is_call(x, 'Uri::query'):
                return good == any(v != 'absent' for v in given.values())
            if mentions(x, lambda y: y.op == 'agg' and y.a[0].endswith('PointFuture')):
                return good
        return None
    captured = lambda x: route_leaf.groups.get(show_re(x))
    return leaf


route_leaf.groups = {}


def show_re(x):
    x = okdeep(x)
    m = re.findall(r'[\w:]+', show(x.a[1][0]))
    return m[-1] if m else None


def regex_of(ctx, evs, ret):
    """{pattern static: group read from it}"""
    g = {}
    for e in evs:
        for a in list(e.args if e.kind == 'call' else ()):
            for x in subterms(a):
                if x.op == 'index' and x.a[1].op == 'const' and x.a[1].a[0][:1] == '"' and is_call(x.a[0], 'Regex::captures'):
                    g[show_re(x.a[0])] = x.a[1].a[0].strip('"')
                if x.op == 'call' and x.a[0].endswith('Captures::name') and is_call(x.a[1][0], 'Regex::captures') and x.a[1][1].op == 'const':
                    g[show_re(x.a[1][0])] = x.a[1][1].a[0].strip('"')
    return g


SAMPLES = {'k': [('k=5', '5'), ('k=12&x=1', '12'), ('x=1&k=0', '0'), ('k=007', '007'), ('x=1', None), ('k=', None), ('k=abc', None)],
           'tracker_name': [('tracker_name=abc_1&window_size=10', 'abc_1'), ('window_size=10&tracker_name=A9', 'A9'), ('window_size=10', None), ('tracker_name=', None)],
           'window_size': [('tracker_name=abc_1&window_size=10', '10'), ('window_size=250&tracker_name=A9', '250'), ('tracker_name=x', None), ('window_size=', None), ('window_size=x', None)]}


@prop('S03')
def patterns(ctx):
    """the patterns that read the query, as the constants they are"""
    n = 0
    for b in ctx.eng.bodies:
        if b.crate != CR or '__static_ref_initialize' not in b.name:
            continue
        try:
            evs = ctx.frame(b).events()
        except Exception:
            continue
        for e in evs:
            if e.kind == 'call' and e.name.endswith('Regex::new') and e.args[0].op == 'const':
                src = e.args[0].a[0].strip('"').replace('\\\\', '\\')
                for g in re.findall(r'\(\?P<(\w+)>', src):
                    if g not in SAMPLES:
                        continue
                    try:
                        r = re.compile(src)
                    except re.error:
                        ctx.undecided('pattern %s' % src)
                        continue
                    bad = []
                    for q, want in SAMPLES[g]:
                        m = r.search(q)
                        if (m.group(g) if m else None) != want:
                            bad.append('%s: %s' % (q, m.group(g) if m else None))
                    n += 1
                    ctx.ob('route/pattern', 'the pattern for %s reads its digits or word from the query' % g, not bad, b.name, '%s on %s' % (src, '; '.join(bad)))
    if not n:
        ctx.undecided('no query patterns found')


def from_uri(t):
    """read from the query of the request"""
    return mentions(t, lambda x: is_call(x, 'Uri::query') and mentions(x, lambda y: y.op == 'param' or (y.op == 'field' and y.a[1] == 'request') or is_call(y, 'Request::uri')))


@prop('S03')
def routes(ctx):
    b = ctx.free('parse_http', CR)
    fr, evs = coroutine(ctx, b)
    ret = fr.ret()
    route_leaf.groups = regex_of(ctx, evs, ret)
    paths = sorted({p for _, p in ROUTES}) + ['/elsewhere', '/knn/', '']
    # strings the code compares with are part of the abstraction too
    for x in {y for e in evs for c in e.guard for a in c for y in subterms(a) if y.op == 'const' and y.a[0][:2] == '"/'}:
        if x.a[0].strip('"') not in paths:
            paths.append(x.a[0].strip('"'))
    default = {'k': 'ok', 'tracker_name': 'ok', 'window_size': 'ok'}
    unk = {}
    for m in ('GET', 'POST', 'PUT', 'HEAD', 'DELETE'):
        for p in paths:
            kind = ROUTES.get((m, p))
            cells = [default]
            if kind in ('Knn', 'RoutingKnn'):
                cells = [dict(default, k=v) for v in ('ok', 'absent', 'bad')]
            elif kind in ('AddTracker', 'CurrentStats'):
                cells = [dict(default, tracker_name=a, window_size=w) for a in ('ok', 'absent') for w in ('ok', 'absent', 'bad')]
            elif kind == 'TrackPoint':
                cells = [dict(default, tracker_name=a, window_size=w) for a in ('ok', 'absent') for w in ('ok', 'absent')]
            for g in cells:
                C = Cell(evs, route_leaf(m, p, g))
                t = strip_mut(C.term(ret))
                key = '%s %s%s' % (m, p, '' if g is default else ' (%s)' % ', '.join('%s %s' % (k, {'ok': 'given', 'absent': 'not given', 'bad': 'not a number'}[v]) for k, v in sorted(g.items()) if k in ({'k'} if kind in ('Knn', 'RoutingKnn') else {'tracker_name', 'window_size'})))
                v = routed(C, t, kind, g)
                if kind is None:
                    unk.setdefault(v, []).append(key + ' gives ' + short(show(t))[:120])
                    continue
                ctx.tri('route/' + kind, key, v, b.name, show(t))
    if unk:
        v = False if False in unk else None if None in unk else True
        ctx.tri('route/other', 'anything else is not found: %d cells' % sum(len(x) for x in unk.values()), v, b.name, '; '.join((unk.get(False) or unk.get(None) or [])[:3]))
    # a body that cannot be read is a failure
    for (m, p), kind in ROUTES.items():
        if kind not in ('Knn', 'RoutingKnn', 'Path', 'TrackPoint'):
            continue
        base = route_leaf(m, p, default)

        def leaf(t):
            if t.op in ('is', 'try') and t.a[1] in ('Ok', 'Err', 'ok', 'err') and mentions(t.a[0], lambda y: y.op == 'agg' and y.a[0].endswith('PointFuture')):
                return t.a[1] in ('Err', 'err')
            return base(t)
        v = fails(Cell(evs, leaf), ret)
        ctx.tri('route/' + kind, '%s %s with a body that does not parse is refused' % (m, p), v, b.name)


def routed(C, t, kind, g):
    err = is_err(t)
    r = okval(t)
    if kind is None:
        if r.op == 'agg' and 'GokoRequest::' in r.a[0]:
            d = [v for _, v in r.a[1]]
            return r.a[0].endswith('::Unknown') and len(d) == 2 and intval(d[1]) == 404
        return False if err or plain(t) else None
    bad = ('k' in g and g['k'] == 'bad' and kind in ('Knn', 'RoutingKnn')) or (kind in ('AddTracker', 'CurrentStats') and g['window_size'] != 'ok')
    if bad:
        if not err:
            return False if r.op == 'agg' else None
        x = t
        while x.op in ('residual', 'err') or (x.op == 'agg' and x.a[0].endswith('::Err')):
            x = strip_mut(x.a[0] if x.op != 'agg' else x.a[1][0][1])
        if x.op == 'agg':
            return x.a[0].endswith('MalformedQuery')
        return True if parsed(x) else None
    if err:
        return False
    if r.op != 'agg':
        return None
    top = r.a[0].split('::')[-1]
    d = [strip_mut(v) for _, v in r.a[1]]
    if kind in ('AddTracker', 'TrackPoint', 'CurrentStats'):
        if top != 'Tracking':
            return False if 'GokoRequest' in r.a[0] else None
        tr = dict(d[0].a[1]) if d[0].op == 'agg' else None
        if tr is None:
            return None
        nm = strip_mut(C.term(tr['tracker_name']))
        ch = strip_mut(C.term(tr['request']))
        if g['tracker_name'] == 'absent':
            ok1 = True if is_none(nm) else None if not plain(nm) else (None if parsed(nm) == 'tracker_name' else False)
        else:
            ok1 = True if parsed(nm) == 'tracker_name' or group_of(nm) == 'tracker_name' else False if is_none(nm) or parsed(nm) else None
        if ch.op != 'agg':
            return None
        if ch.a[0].split('::')[-1] != kind:
            return False
        inner = strip_mut(ch.a[1][0][1])
        if inner.op != 'agg':
            return None
        f = {k: strip_mut(v) for k, v in inner.a[1]}
        if kind == 'TrackPoint':
            ok2 = same(f['point'], is_body)
        else:
            ok2 = same_parse(f['window_size'], 'window_size')
        return conj(ok1, ok2)
    if top != kind:
        return False if 'GokoRequest' in r.a[0] else None
    if kind == 'Parameters':
        return True
    f = {k: strip_mut(v) for k, v in d[0].a[1]} if d[0].op == 'agg' else None
    if f is None:
        return None
    ok = same(f['point'], is_body)
    if 'k' in f:
        k = strip_mut(C.term(f['k']))
        while k.op in ('payload', 'ok') and parsed(k) is None:
            k = strip_mut(k.a[0])
        if g['k'] == 'absent':
            ok2 = intval(k) == 10 if intval(k) is not None else False if parsed(k) is None and plain(k) else None
        else:
            ok2 = same_parse(k, 'k')
        ok = conj(ok, ok2)
    return ok


def conj(a, b):
    return False if a is False or b is False else None if a is None or b is None else True


def same_parse(t, g):
    x = strip_mut(t)
    while x.op in ('payload', 'ok', 'some'):
        x = strip_mut(x.a[0])
    q = parsed(x)
    if q is not None:
        return q == g and from_uri(x)
    return False if intval(x) is not None or (x.op == 'bin' and mentions(x, lambda y: parsed(y) is not None)) else None


def is_body(t):
    """the point read from the body of this request"""
    x = strip_mut(t)
    while x.op in ('payload', 'await', 'ok'):
        x = strip_mut(x.a[0])
    return x.op == 'agg' and x.a[0].endswith('PointFuture')


KINDS = ('Parameters', 'Knn', 'RoutingKnn', 'Path', 'Tracking', 'Unknown')
PROCS = ('KnnRequest::process', 'RoutingKnnRequest::process', 'PathRequest::process', 'ParametersRequest::process', 'TrackerWorker::operator', 'InternalServiceOperator::message', 'CoverTreeReader::clone')


def kind_leaf(req, kind, extra=None):
    def leaf(t):
        if extra is not None:
            v = extra(t)
            if v is not None:
                return v
        if t.op == 'is' and strip_mut(t.a[0]) is req and t.a[1] in KINDS:
            return t.a[1] == kind
        return None
    return leaf


@prop('S03')
def dispatch(ctx):
    b = ctx.body('CoreReader', 'process', crate=CR)
    fr, evs = coroutine(ctx, b, PROCS)
    ret = fr.ret()
    req = next((strip_mut(a.a[0]) for e in evs for c in e.guard for a in c if a.op == 'is' and a.a[1] in ('Knn', 'RoutingKnn')), None)
    if req is None:
        return ctx.undecided('CoreReader::process: no dispatch on the request')
    for kind in KINDS:
        if kind == 'Tracking':
            continue
        C = Cell(evs, kind_leaf(req, kind))
        t = strip_mut(C.term(ret))
        inner = strip_mut(t.a[1]) if t.op == 'optmap' else okval(t)
        key = 'a %s request gets a %s answer' % (kind, kind)
        if inner.op != 'agg' or 'GokoResponse::' not in inner.a[0]:
            ctx.tri('dispatch', key, False if is_err(t) else None, b.name, show(t))
            continue
        v = inner.a[0].split('::')[-1] == kind
        if v:
            d = [strip_mut(x) for _, x in inner.a[1]]
            if kind == 'Unknown':
                v = conj(*[same(x, lambda y: y.op == 'vfield' and y.a[1] == 'Unknown' and str(y.a[2]) == str(i)) for i, x in enumerate(d)])
            else:
                v = same(d[0], lambda y: is_call(y, kind + 'Request::process') and okdeep(okdeep(y).a[1][0]).op == 'vfield' and okdeep(okdeep(y).a[1][0]).a[1] == kind)
        ctx.tri('dispatch', key, v, b.name, show(inner))
        if kind != 'Unknown':
            C = Cell(evs, failing(kind + 'Request::process', kind_leaf(req, kind)))
            t = strip_mut(C.term(ret))
            # optmap of the call fails with it
            v = True if t.op == 'optmap' and is_call(awaited_top(t), kind + 'Request::process') else fails(C, ret)
            ctx.tri('dispatch', 'a %s request that fails is a failure' % kind, v, b.name, show(t))


@prop('S03')
def to_http(ctx):
    b = ctx.free('into_http', CR)
    fr, evs = ctx.frame(b), ctx.events(b)
    req = strip_mut(fr.args[0])
    for kind in KINDS:
        C = Cell(evs, kind_leaf(req, kind))
        f, u = C.which([e for e in evs if e.kind == 'call' and e.name.split('::')[-1] in ('body', 'status', 'to_string', 'to_vec')])
        bodies = [e for e in f if e.name.endswith('Builder::body') or e.name.endswith('Response::new')]
        stats = [e for e in f if e.name.endswith('status')]
        if u or len(bodies) != 1:
            ctx.undecided('into_http %s: %d bodies' % (kind, len(bodies)))
            continue
        t = strip_mut(C.term(bodies[0].args[-1]))
        while t.op in ('payload', 'ok') or (t.op == 'call' and t.a[0].split('::')[-1] in ('from', 'into')):
            t = strip_mut(t.a[0] if t.op != 'call' else t.a[1][0])
        if kind == 'Unknown':
            ctx.tri('http/answer', 'Unknown: its text', same(t, lambda x: x.op == 'vfield' and x.a[1] == 'Unknown' and str(x.a[2]) == '0'), bodies[0], show(t))
            v = False if not stats else each_way(C.term(stats[-1].args[-1]), lambda x: okdeep(x).op == 'vfield' and okdeep(x).a[1] == 'Unknown' and str(okdeep(x).a[2]) == '1') if len(stats) == 1 else None
            ctx.tri('http/answer', 'Unknown: its status', v, bodies[0], show(stats[-1].args[-1]) if stats else 'no status')
        else:
            ctx.tri('http/answer', '%s: its json' % kind, same(t, lambda x: x.op == 'call' and x.a[0].split('::')[-1] in ('to_string', 'to_vec', 'to_string_pretty') and okdeep(x.a[1][0]).op == 'vfield' and okdeep(x.a[1][0]).a[1] == kind), bodies[0], show(t))
            v = True
            for e in stats:
                v = None if intval(e.args[-1]) is None else intval(e.args[-1]) == 200 and v
            ctx.tri('http/answer', '%s: status 200' % kind, v, bodies[0])
        r = strip_mut(C.term(fr.ret()))
        ctx.tri('http/answer', '%s: the response is that one' % kind, False if is_err(r) else True if mentions(r, lambda x: is_call(x, 'Builder::body', 'Response::new')) else None, b.name, show(r))


# ---- S06: which tracker a request goes to ----------------------------------------------------

CREATE = ('Entry::or_insert_with', 'Entry::or_insert', 'Entry::or_insert_with_key', 'HashMap::insert', 'VacantEntry::insert', 'OccupiedEntry::insert', 'HashMap::entry')


def is_trackers(t):
    return ends(awaited(t), 'trackers') and mentions(t, lambda x: x.op == 'param')


def track_leaf(req, named, choice, get, has):
    base = kind_leaf(req, 'Tracking')

    def leaf(t):
        v = base(t)
        if v is not None:
            return v
        if t.op == 'is':
            x = strip(t.a[0])
            if ends(x, 'tracker_name') and x.op == 'field' and t.a[1] in ('Some', 'None'):
                return (t.a[1] == 'Some') == named
            if x.op == 'field' and ends(x, 'request') and t.a[1] in TRACK:
                return t.a[1] == choice
            if x.op == 'call' and x.a[0] in ('HashMap::get', 'HashMap::get_mut') and is_trackers(x.a[1][0]) and t.a[1] in ('Some', 'None'):
                return (t.a[1] == 'Some') == get
            if is_call(x, 'HashMap::entry') and t.a[1] in ('Vacant', 'Occupied'):
                return (t.a[1] == 'Occupied') == has
        if t.op == 'call' and t.a[0] == 'HashMap::contains_key' and is_trackers(t.a[1][0]):
            return has
        return None
    return leaf


TRACK = ('AddTracker', 'TrackPoint', 'CurrentStats')


def is_p(t, req):
    t = okdeep(t)
    return t.op == 'vfield' and strip_mut(t.a[0]) is req and t.a[1] == 'Tracking'


def is_name(t):
    t = strip(t)
    while t.op in ('payload', 'some', 'ok'):
        t = strip(t.a[0])
    return t.op == 'field' and t.a[1] == 'tracker_name'


def tracked(t, msg):
    """the answer is what the tracker answered"""
    t = strip_mut(t)
    if t.op == 'optmap':
        inner = strip_mut(t.a[1])
    else:
        inner = okval(t)
    if inner.op == 'agg' and 'GokoResponse::' in inner.a[0]:
        if not inner.a[0].endswith('::Tracking'):
            return False
        x = strip_mut(inner.a[1][0][1])
        return same(x, lambda y: awaited(y).op == 'call' and awaited(y).a[0] == msg.name and awaited(y).a[1] == msg.args)
    return False if is_err(t) else None


@prop('S06')
def which_tracker(ctx):
    b = ctx.body('CoreReader', 'process', crate=CR)
    fr, evs = coroutine(ctx, b, PROCS)
    ret = fr.ret()
    req = next((strip_mut(a.a[0]) for e in evs for c in e.guard for a in c if a.op == 'is' and a.a[1] in ('Knn', 'RoutingKnn')), None)
    if req is None:
        return ctx.undecided('CoreReader::process: no dispatch on the request')
    evs = [e for e in evs if e.kind == 'call']
    msgs = [e for e in evs if e.name == 'InternalServiceOperator::message']
    if not msgs:
        return ctx.undecided('CoreReader::process: messages no tracker')
    touch = [e for e in evs if e.name in CREATE and e.name != 'HashMap::entry' and mentions(e.args[0], is_trackers)]
    gone = [e for e in evs if e.name in ('HashMap::remove', 'HashMap::clear', 'HashMap::retain', 'HashMap::drain', 'HashMap::remove_entry') and is_trackers(e.args[0])]

    def cell(named, choice, get, has):
        C = Cell(evs, track_leaf(req, named, choice, get, has))
        m, mu = C.which(msgs)
        c, cu = C.which(touch)
        g, gu = C.which(gone)
        return C, m, c, g, mu + cu + gu

    def check(named, choice, has):
        """(verdict, reason)"""
        get = named and (has or choice == 'AddTracker')
        C, m, c, g, u = cell(named, choice, get, has)
        what = []
        if g:
            return False, 'a tracker is removed', g[0]
        if named and choice == 'AddTracker' and not has:
            if not c and not u:
                _, _, c2, _, _ = cell(named, choice, False, has)
                return (None if c2 else False), 'no tracker is made', b.name
            for e in c:
                key = e.args[1] if e.name == 'HashMap::insert' else next((x.a[1][1] for x in subterms(e.args[0]) if is_call(x, 'HashMap::entry') and x.op == 'call'), None)
                v = None if key is None else same(key, is_name)
                if not v:
                    return v, 'the tracker is made under another name', e
            ops, _ = C.which([e for e in evs if e.name == 'TrackerWorker::operator'])
            for e in ops:
                v = same(e.args[0], lambda x: mentions(x, lambda y: ends(y, 'tree')))
                if not v:
                    return v, 'it watches another tree', e
        else:
            over = [e for e in c if e.name in ('HashMap::insert', 'VacantEntry::insert', 'OccupiedEntry::insert') or not (has and named and choice == 'AddTracker')]
            if over:
                return False, 'a tracker is made or replaced' if not has else 'the tracker there is replaced', over[0]
        if u:
            return None, 'undecided guards', u[0]
        t = strip_mut(C.term(ret))
        if named and not get:
            if m:
                return False, 'a tracker is asked', m[0]
            x = okval(t)
            if x.op != 'agg' or 'GokoResponse::' not in x.a[0]:
                return (False if is_err(t) else None), 'the answer', b.name
            if not x.a[0].endswith('::Tracking'):
                return False, 'not a tracking answer', b.name
            y = strip_mut(x.a[1][0][1])
            if y.op != 'agg':
                return None, 'the answer', b.name
            d = [strip_mut(v) for _, v in y.a[1]]
            ok = y.a[0].endswith('TrackingResponse::Unknown') and len(d) == 2
            if not ok:
                return False, 'the answer is not Unknown', b.name
            return conj(True if d[0].op == 'some' and is_name(d[0]) else False if is_none(d[0]) else None if not is_name(d[0]) else True, True if is_none(d[1]) else False if plain(d[1]) else None), 'names the tracker asked for', b.name
        if len(m) != 1:
            return (False if not m else None), 'asks %d trackers' % len(m), b.name
        e = m[0]
        tgt = strip(C.term(e.args[0]))
        if named:
            v = same(tgt, lambda x: mentions(x, lambda y: y.op == 'call' and y.a[0] in ('HashMap::get', 'HashMap::get_mut', 'HashMap::entry') and is_trackers(y.a[1][0]) and is_name(y.a[1][1])) or (x.op == 'index' and is_trackers(x.a[0]) and is_name(x.a[1])))
        else:
            v = same(tgt, lambda x: ends(x, 'main_tracker'))
        if not v:
            return v, 'asks %s' % short(show(tgt))[:100], e
        v = same(e.args[1], lambda x: is_p(x, req))
        if not v:
            return v, 'with %s' % short(show(e.args[1]))[:100], e
        return tracked(t, e), 'the answer is the tracker\'s', b.name
    for choice in TRACK:
        for named, has in ((False, False), (True, False), (True, True)):
            v, why, at = check(named, choice, has)
            ctx.tri('tracker/which', '%s for %s' % (choice, 'no name: the main tracker answers, none is made' if not named else 'a name that has a tracker: that one answers, it is not replaced' if has else 'a new name: one is made under it and answers' if choice == 'AddTracker' else 'an unknown name: unknown, none is made'), v, at, why)


@prop('S06')
def shared(ctx):
    """every reader of one server shares its trackers"""
    w = ctx.body('CoreWriter', 'new', crate=CR)
    eng = ('TrackerWorker::operator', 'CoverTreeWriter::reader')
    fr = ctx.engine(eng).frame(w)
    t = strip_mut(fr.ret())
    if t.op == 'agg':
        f = {k: strip_mut(v) for k, v in t.a[1]}
        ctx.tri('tracker/shared', 'the main tracker watches the tree served', same(f['main_tracker'], lambda x: mentions(x, lambda y: is_call(y, 'TrackerWorker::operator') and y.op == 'call' and mentions(y, lambda z: z.op == 'param'))), w.name, show(f['main_tracker']))
        ctx.tri('tracker/shared', 'the tree served is the one given', same(f['tree'], lambda x: x.op == 'param'), w.name, show(f['tree']))
    else:
        ctx.undecided('CoreWriter::new')
    r = ctx.body('CoreWriter', 'reader', crate=CR)
    fr = ctx.engine(eng).frame(r)
    t = strip_mut(fr.ret())
    if t.op == 'agg':
        f = {k: strip_mut(v) for k, v in t.a[1]}
        for k in ('trackers', 'main_tracker'):
            ok = lambda x: ends(okdeep(x), k) and not mentions(x, lambda y: y.op in ('new', 'agg'))
            ctx.tri('tracker/shared', 'a reader uses the server\'s %s' % k, True if ok(f[k]) else False if plain(f[k]) or f[k].op == 'new' or is_call(f[k], 'TrackerWorker::operator') else None, r.name, show(f[k]))
        ctx.tri('tracker/shared', 'a reader reads the server\'s tree', same(f['tree'], lambda x: is_call(x, 'CoverTreeWriter::reader') and ends(okdeep(okdeep(x).a[1][0]), 'tree')), r.name, show(f['tree']))
    else:
        ctx.undecided('CoreWriter::reader')


GUARD = re.compile(r'^(?:[\w:]+::)?(RwLockReadGuard|RwLockWriteGuard|MutexGuard|OwnedRwLockWriteGuard|OwnedRwLockReadGuard)<(.*)>$')


def lock_bodies(ctx):
    return [b for b in ctx.eng.bodies if b.crate == CR]


@prop('S06')
def nested(ctx):
    """no lock is taken while a guard of the same lock that excludes it is held by the same task"""
    n = 0
    for b in lock_bodies(ctx):
        gl = {}
        for l, ty in b.locals.items():
            m = GUARD.match(ty.strip())
            if m:
                gl[l] = m.group(1), re.sub(r"'\w+,? ?", '', m.group(2)).strip()
        acq = []
        for bb in b.blocks.values():
            t = bb.term
            if t is not None and t.kind == 'call':
                m = re.search(r'(RwLock|Mutex)::<(.*)>::(read|write|lock|blocking_read|blocking_write)\b', t.text)
                if m:
                    acq.append((bb.id, m.group(1), m.group(3), re.sub(r"'\w+,? ?", '', m.group(2)).strip()))
        if not acq:
            continue
        ctx.functions[b.name] = 1
        # forward may-analysis of held guards
        start = min(b.blocks)
        held = {start: frozenset()}
        work = [start]
        at = {}
        while work:
            i = work.pop()
            h = set(held[i])
            bb = b.blocks[i]
            for s in bb.stmts:
                for x in re.findall(r'move _(\d+)\b(?!\.)', s.text):
                    h.discard(int(x))
                m = re.match(r'_(\d+) = ', s.text)
                if m and int(m.group(1)) in gl and not s.text.split('=')[1].strip().startswith('&'):
                    h.add(int(m.group(1)))
            t = bb.term
            at[i] = frozenset(h)
            if t is None:
                continue
            if t.kind == 'drop':
                m = re.match(r'drop\(_(\d+)\)', t.text)
                if m:
                    h.discard(int(m.group(1)))
            if t.kind == 'call':
                for x in re.findall(r'move _(\d+)\b(?!\.)', t.text):
                    h.discard(int(x))
                m = re.match(r'_(\d+) = ', t.text)
                if m and int(m.group(1)) in gl:
                    h.add(int(m.group(1)))
            for _, s in (t.targets if t.targets and isinstance(t.targets[0], tuple) else [(None, x) for x in t.targets]):
                if s not in b.blocks:
                    continue
                new = held.get(s, frozenset()) | h
                if s not in held or new != held[s]:
                    held[s] = new
                    work.append(s)
        for i, what, how, inner in acq:
            if i not in at:
                continue
            n += 1
            bad = [gl[g] for g in at[i] if what in gl[g][0] and gl[g][1] == inner and not (how.endswith('read') and 'Read' in gl[g][0])]
            ctx.ob('lock/nested', '%s: %s::%s in %s' % (b.name, what, how, 'block %d' % i), not bad, '%s:%s' % (b.name, b.blocks[i].term.span), 'the lock is taken while %s of it is still held' % ', '.join(x[0] for x in bad))
    if not n:
        ctx.undecided('no lock is taken in the server')


# ---- S05: the body of a request ------------------------------------------------------------

def depth_of(t):
    n, t = 0, strip_mut(t)
    while t.op == 'payload':
        n, t = n + 1, strip_mut(t.a[0])
    return n


def data_poll(t):
    return is_call(t, 'HttpBody::poll_data')


def trailer_poll(t):
    return is_call(t, 'HttpBody::poll_trailers')


APPEND = ('Vec::extend_from_slice', 'Extend::extend', 'Vec::extend', 'BytesMut::extend_from_slice', 'Vec::append', 'BufMut::put', 'Write::write_all')


def contradicts(conj):
    seen = {}
    for a in conj:
        if a.op == 'is':
            if seen.setdefault(a.a[0], a.a[1]) != a.a[1]:
                return True
    return False


@prop('S05')
def body_read(ctx):
    b = ctx.body('PointFuture', 'poll', 'Future', crate=CR)
    fr, evs = ctx.frame(b), ctx.events(b)
    for e in evs:
        if e.body is not None:
            ctx.functions[e.body.name] = 1
    calls = [e for e in evs if e.kind == 'call']
    polls = [e for e in calls if e.name == 'HttpBody::poll_data']
    parses = [e for e in calls if e.name == 'PointParser::parse']
    if not polls or not parses:
        return ctx.undecided('PointFuture::poll: %d polls of the body, %d parses' % (len(polls), len(parses)))
    cx = fr.args[1]
    for e in polls:
        ctx.tri('body/own', 'what is read is the body of this request', same(e.args[0], lambda t: is_call(t, 'Request::body_mut') and ends(okdeep(okdeep(t).a[1][0]), 'request')), e, show(e.args[0]))
        ctx.tri('body/wake', 'the task waiting for the body is woken', True if strip_mut(e.args[1]) is strip_mut(cx) or mentions(e.args[1], lambda x: x is strip_mut(cx)) else False if plain(e.args[1]) else None, e, show(e.args[1]))
    for e in parses:
        ok = [ends(okdeep(e.args[0]), 'body_buffer'), ends(okdeep(e.args[1]), 'point_buffer'), ends(okdeep(e.args[2]), 'request')]
        ctx.tri('body/parse', 'what is parsed is what was read, with this request', True if all(ok) else False if plain(e.args[0]) and plain(e.args[2]) and plain(e.args[1]) else None, e, ', '.join(show(a) for a in e.args))
    ap = {}
    for e in calls:
        if e.name in APPEND and ends(okdeep(e.args[0]), 'body_buffer'):
            x = strip(e.args[1])
            ap[e] = True if is_call(x, 'HttpBody::poll_data') else False if x.op == 'index' and is_call(x.a[0], 'HttpBody::poll_data') and re.search(r'Range(To|From|Inclusive)?\b', show(x.a[1])[:20]) else None if not plain(x) else False
            ctx.tri('body/whole', 'each chunk is kept whole', ap[e], e, show(e.args[1]))
    if not ap:
        return ctx.tri('body/whole', 'each chunk is kept', None, b.name, 'nothing appends to the buffer')
    is_other = lambda e: (e.args and ends(okdeep(e.args[0]), 'body_buffer') and e.name.split('::')[-1] in ('truncate', 'drain', 'pop', 'remove', 'swap_remove', 'retain', 'insert', 'push', 'resize', 'dedup', 'reverse', 'split_off', 'sort'))

    def step(s, e):
        if s[0] in '!?':
            return s
        if e.kind == 'call' and e.name in APPEND and ends(okdeep(e.args[0]), 'body_buffer'):
            return 'have' if s == 'chunk' else '!a chunk is kept twice' if s == 'have' else s
        if e.kind == 'call':
            if e.name == 'HttpBody::poll_data':
                return {'chunk': '!a chunk is lost', 'ended': '!the body is read again after its end', 'last': '!the body is read again after its end', 'failed': '!the body is read again after it failed',
                        'parsed': '!the body is read again after it was parsed'}.get(s, 'polled')
            if e.name == 'PointParser::parse':
                return {'ended': 'parsed', 'last': 'parsed', 'chunk': '!the body is parsed without the last chunk', 'have': '!the body is parsed before its end', 'start': '!the body is parsed before it is read',
                        'pending': '!the body is parsed before its end', 'polled': '!the body is parsed before its end', 'parsed': '!the body is parsed twice'}.get(s, s)
            if e.name in ('Vec::clear', 'mem::take') and e.args and ends(okdeep(e.args[0]), 'body_buffer'):
                if s in ('parsed', 'parsed+', 'failed'):
                    return 'parsed+' if s.startswith('parsed') else s
                return '!what was read is thrown away'
            if is_other(e) and s not in ('parsed', 'parsed+', 'failed'):
                return '!what was read is changed'
        if e.kind == 'write' and ends(strip(e.lval), 'request') and s not in ('parsed', 'parsed+', 'failed'):
            return '!the request is replaced while it is read'
        return s

    def edge(f, dnf, s):
        if s[0] in '!?':
            return s
        to = {along(c, s) for c in dnf if not contradicts(c)} - {None}
        return to or None

    def along(conj, s):
        for a in conj:
            if a.op == 'is' and data_poll(a.a[0]):
                k = a.a[1]
                if k == 'Pending':
                    s = 'pending' if s == 'polled' else None if s in ('chunk', 'have', 'ended', 'failed', 'last') else s
                elif k == 'None' and depth_of(a.a[0]) >= 1:
                    s = 'ended' if s == 'polled' else None if s in ('chunk', 'have', 'failed', 'last', 'pending') else s
                elif k == 'Some':
                    s = None if s in ('ended', 'pending') else s
                elif k == 'Ok':
                    s = 'chunk' if s == 'polled' else None if s in ('ended', 'failed', 'pending') else s
                elif k == 'Err':
                    s = 'failed' if s == 'polled' else None if s in ('ended', 'chunk', 'have', 'last', 'pending') else s
            elif a.op == 'try' and data_poll(a.a[0]):
                if a.a[1] == 'err':
                    s = 'failed' if s == 'polled' else s
                else:
                    s = 'chunk' if s == 'polled' else s
            elif a.op == 'is' and trailer_poll(a.a[0]) and a.a[1] == 'Pending' and s == 'ended':
                s = 'pending'
            elif a.op == 'bool' and is_call(a.a[0], 'HttpBody::is_end_stream'):
                if a.a[1] in (True, 'True', 'true') and s == 'have':
                    s = 'last'
            if s is None:
                return None
        return s
    F = Flagged(step, edge=edge)
    out = F.run(fr, 'start')
    msg = {'have': 'it answers before the end of the body', 'chunk': 'it answers with a chunk unread', 'ended': 'it answers without parsing', 'last': 'it answers without parsing', 'polled': 'it answers without looking', 'start': 'it answers without reading'}
    bad = sorted({msg.get(s, s[1:]) for s in out if s not in ('parsed', 'parsed+', 'failed', 'pending', '?')})
    if not out or '?' in out and not bad:
        ctx.undecided('PointFuture::poll: the ways through it')
    else:
        ctx.ob('body/whole', 'the whole body, each chunk once and in order, up to its end, is what is parsed', not bad, polls[0], '; '.join(bad))
    # what is answered
    for nm, data, opt, res, tr, end in (('the body is not there yet', 'Pending', None, None, None, None), ('the body has failed', 'Ready', 'Some', 'Err', None, None),
                                        ('the body has ended', 'Ready', 'None', None, 'Ready', None), ('the trailers are not there yet', 'Ready', 'None', None, 'Pending', False),
                                        ('the last chunk', 'Ready', 'Some', 'Ok', None, True)):
        def leaf(t, data=data, opt=opt, res=res, tr=tr, end=end):
            if t.op in ('is', 'ready', 'try'):
                k = {'ok': 'Ok', 'err': 'Err'}.get(t.a[1], t.a[1])
                if data_poll(t.a[0]):
                    for v, names in ((data, ('Ready', 'Pending')), (opt, ('Some', 'None')), (res, ('Ok', 'Err'))):
                        if k in names:
                            return None if v is None else k == v
                if trailer_poll(t.a[0]) and k in ('Ready', 'Pending'):
                    return None if tr is None else k == tr
            if t.op == 'call' and t.a[0] == 'HttpBody::is_end_stream':
                return end
            return None
        if nm.startswith('the trailers') and not any(e.name == 'HttpBody::poll_trailers' for e in calls):
            continue
        t = strip_mut(Cell(evs, leaf).term(fr.ret()))
        pend = t.op == 'agg' and t.a[0].endswith('Pending')
        inner = strip_mut(t.a[0]) if t.op == 'ok' else strip_mut(t.a[1][0][1]) if t.op == 'agg' and t.a[0].endswith('::Ready') else t
        if 'not there yet' in nm:
            v = True if pend else False if t.op == 'ok' and nm.startswith('the body') else None
            if nm.startswith('the trailers') and is_call(inner, 'PointParser::parse'):
                v = True
        elif pend:
            v = False
        elif nm == 'the body has failed':
            v = True if is_err(inner) else False if is_call(inner, 'PointParser::parse') or inner.op in ('ok',) else None
        else:
            v = True if strip_mut(inner).op == 'call' and is_call(inner, 'PointParser::parse') else False if is_err(inner) and plain(inner) else None
            x = inner
            while v is None and x.op == 'optmap':
                x = strip_mut(x.a[0])
            v = True if v is None and is_call(x, 'PointParser::parse') else v
        ctx.tri('body/answer', '%s: %s' % (nm, 'pending' if 'not there yet' in nm else 'a failure' if 'failed' in nm else 'the parsed point'), v, b.name, show(t))
    # the next request starts with an empty buffer
    nb = ctx.body('PointBuffer', 'point', crate=CR)
    nf, nev = ctx.frame(nb), ctx.events(nb)
    for e in nev:
        if e.body is not None:
            ctx.functions[e.body.name] = 1

    def nstep(s, e):
        s = set(s)
        if e.kind == 'call' and e.name in ('Vec::clear', 'mem::take') and e.args:
            for k in ('body_buffer', 'point_buffer'):
                if ends(okdeep(e.args[0]), k):
                    s.add(k)
        if e.kind == 'write':
            for k in ('body_buffer', 'point_buffer', 'request'):
                if ends(strip(e.lval), k):
                    s.discard('?request')
                    s.add(k if k != 'request' or strip_mut(e.val) is strip_mut(nf.args[1]) else '?request')
        if e.kind == 'call' and e.name in ('mem::replace', 'mem::swap') and ends(okdeep(e.args[0]), 'request'):
            s.add('request' if strip_mut(e.args[1]) is strip_mut(nf.args[1]) else '?request')
        return frozenset(s)
    outs = Typestate(nstep).run(nf, frozenset())
    req = [s for s in outs if 'request' not in s or '?request' in s]
    ctx.tri('body/start', 'a new request is the one that is read', True if outs and not req else False if all('?request' not in s for s in req) else None, nb.name)
    r = strip_mut(nf.ret())
    ctx.tri('body/start', 'it is read with this buffer', True if r.op == 'agg' and same(dict(r.a[1]).get('req', r), lambda t: strip_mut(t) is strip_mut(nf.args[0])) else None, nb.name, show(r))
    fresh = outs and all('body_buffer' in s for s in outs)
    ends_clean = 'parsed' not in out and 'parsed+' in out
    ctx.ob('body/start', 'a new request starts with an empty buffer', bool(fresh or ends_clean and failed_clean(fr, evs)), nb.name, 'bytes of the previous request are still in the buffer')
    scratch_fresh = outs and all('point_buffer' in s for s in outs)
    parse(ctx, scratch_fresh)


def failed_clean(fr, evs):
    """a body that failed leaves nothing in the buffer"""
    def step(s, e):
        if e.kind == 'call' and e.name in ('Vec::clear', 'mem::take') and e.args and ends(okdeep(e.args[0]), 'body_buffer'):
            return 'clean' if s == 'failed' else s
        return s

    def edge(f, dnf, s):
        if len(dnf) == 1:
            for a in next(iter(dnf)):
                if a.op == 'is' and data_poll(a.a[0]) and a.a[1] == 'Err':
                    return 'failed'
        return s
    return 'failed' not in Flagged(step, edge=edge).run(fr, 'start')


DECODE = ('from_read_ref', 'from_slice', 'from_read')
TYPES = (('no content type', None, None), ('zlib', 'zlib', ('DeflateDecoder',)), ('gzip', 'gzip', ('ZlibDecoder',)), ('another content type', 'application/octet-stream', 'fail'), ('an empty content type', '', 'fail'),
         ('a content type that is not text', False, 'fail'))


def ctype(t):
    return mentions(t, lambda x: is_call(x, 'HeaderMap::get') and mentions(x, lambda y: y.op == 'const' and 'CONTENT_TYPE' in y.a[0]))


def parse_leaf(kind, read=True, empty=False, dec=True, scratch=None):
    def leaf(t):
        if t.op in ('is', 'try'):
            good = t.a[1] in ('Some', 'Ok', 'ok')
            if t.op == 'is' and t.a[1] not in ('Some', 'None', 'Ok', 'Err'):
                return None
            x = okdeep(t.a[0])
            if is_call(x, 'HeaderMap::get') and ctype(x) and t.a[1] in ('Some', 'None'):
                return good == (kind is not None)
            if is_call(x, 'HeaderValue::to_str') and t.a[1] not in ('Some', 'None'):
                return None if kind is None else good == (kind is not False)
            if is_call(x, 'Read::read_to_end', 'Read::read', 'io::copy'):
                return good == read
            if x.op == 'call' and x.a[0].split('::')[-1] in DECODE:
                return good == dec
        if t.op == 'call' and t.a[0] == 'HeaderValue::to_str':
            return '"%s"' % kind if isinstance(kind, str) else None
        if t.op == 'payload' and is_call(t, 'HeaderValue::to_str'):
            return '"%s"' % kind if isinstance(kind, str) else None
        if t.op == 'payload' and t.a[0].op == 'call' and t.a[0].a[0] == 'Read::read_to_end':
            return 0 if empty else 17
        if t.op == 'nonempty':
            return not empty
        if t.op in ('len', 'call') and (t.op == 'len' or t.a[0].split('::')[-1] == 'len'):
            return 0 if empty else 17
        if t.op == 'call' and t.a[0].split('::')[-1] == 'is_empty':
            return empty
        return None
    return leaf


def parse(ctx, scratch_fresh):
    b = ctx.body('MsgPackDense', 'parse', 'PointParser', crate=CR)
    fr, evs = ctx.frame(b), ctx.events(b)
    ret = fr.ret()
    body, scratch = strip_mut(fr.args[0]), strip_mut(fr.args[1])
    calls = [e for e in evs if e.kind == 'call']
    reads = [e for e in calls if e.name == 'Read::read_to_end']
    decs = [e for e in calls if e.name.split('::')[-1] in DECODE and 'rmp' in e.name]
    if not decs:
        return ctx.undecided('MsgPackDense::parse decodes nothing')
    for nm, kind, want in TYPES:
        if want == 'fail':
            C = Cell(evs, parse_leaf(kind))
            ctx.tri('parse/type', '%s: refused' % nm, fails(C, ret), b.name, show(C.term(ret)))
            continue
        C = Cell(evs, parse_leaf(kind))
        f, u = C.which(reads + decs)
        d = [e for e in f if e in decs]
        r = [e for e in f if e in reads]
        if u or len(d) != 1 or len(r) > 1:
            ctx.tri('parse/type', '%s: decoded' % nm, fails(C, ret) and False if not u and not d and fails(C, ret) else None, b.name, '%d reads, %d decodes, %d undecided' % (len(r), len(d), len(u)))
            continue
        src = strip(C.term(d[0].args[0]))
        if r:
            if src is not strip(r[0].args[1]):
                ctx.tri('parse/type', '%s: what is decoded is what was read' % nm, False if plain(src) else None, d[0], show(src))
                continue
            src = strip(C.term(r[0].args[0]))
        while src.op == 'agg' and 'Readers::' in src.a[0]:
            src = strip(src.a[1][0][1])
        while src.op in ('mutref', 'ref'):
            src = strip(src.a[-1])
        if want is None:
            v = same(src, lambda t: strip_mut(t) is body)
        else:
            v = same(src, lambda t: t.op == 'call' and t.a[0].split('::')[0] in want and t.a[0].endswith('new') and strip(t.a[1][0]) is body)
        ctx.tri('parse/type', '%s: the body is decoded %s' % (nm, 'as it is' if want is None else 'through ' + want[0]), v, r[0] if r else d[0], show(src))
        t = strip_mut(C.term(ret))
        ctx.tri('parse/point', '%s: the point is the numbers decoded' % nm, False if is_err(t) else same(okval(t), lambda x: is_call(x, d[0].name)), b.name, show(t))
        if r:
            ctx.tri('parse/fail', '%s: a body that cannot be unpacked is refused' % nm, fails(Cell(evs, parse_leaf(kind, read=False)), ret), b.name)
        ctx.tri('parse/fail', '%s: a body that is not a list of numbers is refused' % nm, fails(Cell(evs, parse_leaf(kind, dec=False)), ret), b.name)
        ctx.tri('parse/fail', '%s: an empty body is refused' % nm, fails(Cell(evs, parse_leaf(kind, empty=True)), ret), b.name, show(Cell(evs, parse_leaf(kind, empty=True)).term(ret)))
    if reads:
        def step(s, e):
            if e.kind == 'call' and e.name == 'Vec::clear' and strip_mut(e.args[0]) is scratch:
                return s if s == 'bad' else 'fresh' if s != 'read' else 'lost'
            if e in reads and strip(e.args[1]) is scratch:
                return 'bad' if s not in ('fresh', 'local') else 'read'
            if e in decs and s == 'lost':
                return 'bad'
            return s
        own = all(strip(e.args[1]) is not scratch for e in reads)
        out = Typestate(step).run(fr, 'fresh' if scratch_fresh else 'start')
        ctx.ob('parse/scratch', 'nothing of an earlier body is decoded with this one', own or 'bad' not in out, reads[0], 'the scratch buffer is not empty when the body is unpacked into it')
    rb = ctx.eng.find('Readers', 'read', 'Read', CR)
    if not rb:
        return
    rb = rb[0]
    ctx.functions[rb.name] = 1
    rf, rev = ctx.frame(rb), ctx.events(rb)
    this = strip_mut(rf.args[0])
    for V in ('Zlib', 'Gzip', 'None'):
        def leaf(t, V=V):
            if t.op == 'is' and strip_mut(t.a[0]) is this:
                return t.a[1] == V
            return None
        t = strip_mut(Cell(rev, leaf).term(rf.ret()))
        ctx.tri('parse/reader', 'Readers::%s reads through its own reader into the buffer asked for' % V,
                same(t, lambda x: is_call(x, 'Read::read') and okdeep(okdeep(x).a[1][0]).op == 'vfield' and okdeep(okdeep(x).a[1][0]).a[1] == V and strip_mut(okdeep(x).a[1][1]) is strip_mut(rf.args[1])), rb.name, show(t))


# ---- S02: no request stops the server -----------------------------------------------------------

UNWRAPS = ('Option::unwrap', 'Option::expect', 'Result::unwrap', 'Result::expect', 'Result::unwrap_err', 'Result::expect_err', 'Option::unwrap_unchecked', 'Result::unwrap_unchecked')
SOURCES = ('Request::uri', 'Request::headers', 'Request::body', 'Request::into_body', 'Request::body_mut', 'Request::method', 'Request::into_parts', 'Uri::query', 'Uri::path', 'HeaderMap::get', 'HeaderValue::to_str',
           'Regex::captures', 'Regex::find', 'Captures::get', 'Captures::name', 'HttpBody::poll_data', 'HttpBody::poll_trailers', 'Read::read_to_end', 'Read::read', 'Read::read_exact', 'rmp_serde::from_read_ref', 'rmp_serde::from_slice',
           'rmp_serde::from_read', 'PointParser::parse')
FIELDS = ('k', 'window_size', 'tracker_name', 'point')


def from_request(t):
    for x in subterms(t):
        if x.op == 'call' and x.a[0] in SOURCES:
            return True
        if x.op == 'vfield' and x.a[1] in KINDS + TRACK + ('TrackPath',):
            return True
        if x.op == 'field' and x.a[1] in FIELDS and any(y.op in ('param', 'vfield') for y in subterms(x)):
            return True
        if x.op == 'param' and str(x.a[-1]) in ('body_buffer', 'scratch_buffer', 'uri', 'request', 'req', 'hyper_request', 'body', 'query'):
            return True
    return False


def mandatory(src, g):
    """is the group part of every match"""
    try:
        import re._parser as sp
    except ImportError:
        import sre_parse as sp
    try:
        p = sp.parse(src)
    except re.error:
        return None
    n = p.state.groupdict.get(g)
    if n is None:
        return False

    def has(seq):
        for op, av in seq:
            nm = str(op)
            if nm == 'SUBPATTERN':
                if av[0] == n or has(av[3]):
                    return True
            elif nm in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
                if av[0] > 0 and has(av[2]):
                    return True
            elif nm == 'BRANCH':
                if all(has(x) for x in av[1]):
                    return True
        return False
    return has(p)


def static_patterns(ctx):
    """the patterns made once"""
    out = []
    for b in ctx.eng.bodies:
        if b.crate != CR or '__static_ref_initialize' not in b.name:
            continue
        try:
            evs = ctx.frame(b).events()
        except Exception:
            continue
        for e in evs:
            if e.kind == 'call' and e.name.endswith('Regex::new') and e.args[0].op == 'const':
                out.append(e.args[0].a[0].strip('"').replace('\\\\', '\\'))
    return out


def derived(b):
    return b.crate != CR or re.search(r'visit_|deserialize|serialize|::fmt$|__static_ref|::clone$|::from$|::source$', b.name) or b.is_closure and '::{closure' not in b.name


@prop('S02')
def no_panic(ctx):
    pats = static_patterns(ctx)
    seen = {}
    nsite = 0
    opq = QUERIES + ('CoverTreeReader::parameters', 'BayesCategoricalTracker::new', 'BayesCategoricalTracker::add_path')
    E = ctx.engine(opq)
    for b in ctx.eng.bodies:
        if derived(b) or b.is_closure:
            continue
        frames = []
        try:
            frames.append(E.frame(b))
        except Exception:
            pass
        try:
            frames += E.async_frames(b)
        except Exception:
            pass
        for fr in frames:
            ctx.functions[b.name] = 1
            try:
                evs = fr.events()
            except Exception:
                ctx.undecided('%s' % b.name)
                continue
            ctx.sites += len(evs)
            for e in evs:
                if e.kind != 'call' or (e.body is not None and e.body.crate != CR):
                    continue
                v = panics(ctx, e, pats)
                if v is None:
                    continue
                nsite += 1
                k = (e.where(), e.name)
                old = seen.get(k)
                if old is None or (old[0] is not False and v[0] is False):
                    seen[k] = v[0], v[1], e
            for bb in fr.body.blocks.values():
                t = bb.term
                if bb.cleanup or t is None or t.kind != 'assert' or not t.op:
                    continue
                try:
                    c = fr.operand(t.op, bb.id, len(bb.stmts))
                    g = fr.guard(bb.id)
                except Exception:
                    continue
                nsite += 1
                tainted = from_request(c)
                bases = [x.a[0] for x in subterms(c) if x.op == 'len'] + [x for x in subterms(c) if x.op in ('payload', 'field')]
                loops = any(x.op in ('idx', 'rangeidx', 'each', 'rec', 'phi') for x in subterms(c))
                checked = any(sized(a, y) for cl in g for a in cl for y in bases)
                v = True if not tainted else None if loops or checked else False
                if v is not True:
                    seen[('%s:%s' % (t.span[0], t.span[1]) if t.span else b.name, 'assert')] = v, 'bounds: %s' % short(show(c))[:120], b.name
    for (w, n), (v, why, e) in sorted(seen.items(), key=lambda x: str(x[0])):
        ctx.tri('panic/request', '%s in %s cannot fail on a request' % (n, w.split(':')[0]) + (' (%s)' % why if why else ''), v, e, why)
    ctx.ob('panic/request', 'panicking sites in the code that handles requests: no one depends on what is sent', all(v is not False for v, _, _ in seen.values()), CR, '%d sites' % nsite)


def sized(a, base):
    """the condition says something about the length of base"""
    base = strip(base)
    return mentions(a, lambda x: x.op in ('len', 'nonempty') and strip(x.a[0]) is base or x.op == 'call' and x.a[0].split('::')[-1] in ('len', 'is_empty', 'starts_with', 'ends_with', 'is_char_boundary', 'contains_key', 'contains') and x.a[1] and strip(x.a[1][0]) is base)


def told(n):
    """a number the request gives, not the size of something there is"""
    st = [n]
    while st:
        x = st.pop()
        if x.op == 'len' or x.op == 'call' and (x.a[0].startswith('CoverTree') or x.a[0].split('::')[-1] in ('len', 'count', 'min')) or x.op == 'Min':
            continue
        if x.op == 'field' and x.a[1] in ('k', 'window_size') or x.op == 'call' and x.a[0] == 'str::parse':
            return True
        for a in x.a:
            st += [y for y in (a if isinstance(a, tuple) else (a,)) if isinstance(y, sem.T)]
            if isinstance(a, tuple):
                st += [z for y in a if isinstance(y, tuple) for z in y if isinstance(z, sem.T)]
    return False


def panics(ctx, e, pats):
    """None: not a panicking site; else (verdict, reason)"""
    nm = e.name
    if nm in UNWRAPS:
        x = strip(e.args[0])
        if any(a.op == 'is' and strip(a.a[0]) is x and a.a[1] in ('Some', 'Ok') for a in must_atoms(e.guard)):
            return True, 'checked before'
        c = x
        while c.op in ('optmap',):
            c = strip(c.a[0])
        if 'Guard<' in e.full or is_call(c, 'Mutex::lock', 'RwLock::read', 'RwLock::write'):
            return True, 'a lock'
        if c.op == 'call' and c.a[0].split('::')[-1] in ('to_string', 'to_vec', 'to_string_pretty') and 'serde_json' in c.a[0] or c.op == 'call' and c.a[0] in ('ser::to_string', 'serde_json::to_string'):
            return True, 'an answer can always be written'
        if is_call(c, 'Builder::body'):
            return True, 'the status and headers are the server\'s own'
        if is_call(c, 'Regex::new') and c.op == 'call' and c.a[1][0].op == 'const':
            return True, 'a constant'
        if from_request(e.args[0]):
            return False, '%s fails on some requests' % short(show(x))[:120]
        if any(from_request(a) for cl in e.guard for a in cl) and plain(x) and x.op == 'call' and x.a[0].startswith('CoverTree'):
            return None, short(show(x))[:80]
        return None, short(show(x))[:80]
    last = nm.split('::')[-1]
    if nm.startswith('panicking::') or last in ('panic', 'panic_fmt', 'begin_panic', 'panic_display', 'unreachable_display', 'assert_failed', 'panic_str', 'unreachable', 'panic_explicit'):
        t = any(from_request(a) for cl in e.guard for a in cl)
        return (False if t or not must_atoms(e.guard) else None), 'a panic on the way of a request'
    if nm in ('Index::index', 'IndexMut::index_mut') or last in ('index', 'index_mut') and len(e.args) == 2:
        base, ix = e.args[0], e.args[1]
        if is_call(base, 'Regex::captures', 'Captures') and ix.op == 'const' and ix.a[0][:1] == '"':
            g = ix.a[0].strip('"')
            src = [s for s in pats if '(?P<%s>' % g in s]
            vs = [mandatory(s, g) for s in src]
            return (True if vs and all(vs) else False if vs and not any(vs) else None), 'group %s' % g
        if from_request(base) or from_request(ix):
            chk = any(sized(a, base) for cl in e.guard for a in cl)
            lp = any(x.op in ('idx', 'rangeidx', 'each', 'rec', 'phi') for x in subterms(ix))
            return (None if chk or lp else False), '%s of %s' % (short(show(ix))[:50], short(show(base))[:70])
        return None
    if last in ('with_capacity', 'reserve', 'reserve_exact', 'with_capacity_and_hasher', 'from_elem', 'resize') and e.args:
        n = e.args[-1] if last in ('with_capacity', 'reserve', 'reserve_exact', 'from_elem') else e.args[0] if last.startswith('with') else e.args[1]
        if told(n):
            return False, 'room for as many as the request says is set aside at once'
        return None
    if last in ('split_at', 'split_at_mut', 'copy_from_slice', 'clone_from_slice', 'split_off', 'swap_remove', 'chunks', 'chunks_exact', 'windows', 'step_by') and e.args and any(from_request(a) for a in e.args):
        return None, last
    return None


@prop('S02')
def dimension(ctx):
    """a point that does not have the tree's dimension is refused before it reaches the metric"""
    dims = [b for b in ctx.eng.bodies if b.crate == CR and any(bb.term is not None and bb.term.kind == 'call' and re.search(r'PointCloud>?::dim\b', bb.term.text) for bb in b.blocks.values())]
    for typ, q in (('KnnRequest', 'CoverTreeReader::knn'), ('RoutingKnnRequest', 'CoverTreeReader::routing_knn'), ('PathRequest', 'CoverTreeReader::path')):
        b = ctx.body(typ, 'process', crate=CR)
        evs = ctx.events(b, (q,))
        es = [e for e in evs if e.kind == 'call' and e.name == q]
        for e in es[:1]:
            chk = any(mentions(a, lambda x: is_call(x, 'PointCloud::dim')) for cl in e.guard for a in cl)
            ctx.tri('panic/dimension', typ, True if chk else None if dims else False, e, 'a point of any length goes to the metric, which panics on some')
    b = ctx.body('TrackerWorker', 'process', crate=CR)
    evs = ctx.events(b, ('CoverTreeReader::path',))
    es = [e for e in evs if e.kind == 'call' and e.name == 'CoverTreeReader::path']
    for e in es[:1]:
        chk = any(mentions(a, lambda x: is_call(x, 'PointCloud::dim')) for cl in e.guard for a in cl)
        ctx.tri('panic/dimension', 'TrackPoint', True if chk else None if dims else False, e, 'a point of any length goes to the metric, which panics on some')


@prop('S02')
def allocated(ctx):
    """what a request says does not decide how much memory is set aside at once"""
    for owner, m, trait, params in (('KnnRequest', 'process', None, ('k',)), ('RoutingKnnRequest', 'process', None, ('k',)), ('TrackerWorker', 'process', None, ('window_size',))):
        b = ctx.body(owner, m, crate=CR)
        evs = ctx.events(b)
        bad = [e for e in evs if e.kind == 'call' and e.name.split('::')[-1] in ('with_capacity', 'reserve', 'reserve_exact', 'with_capacity_and_hasher', 'from_elem', 'resize')
               and any(told(a) for a in e.args)]
        ctx.ob('panic/memory', '%s: no memory is set aside by the number a request gives' % owner, not bad, bad[0] if bad else b.name, bad[0].name if bad else '')
