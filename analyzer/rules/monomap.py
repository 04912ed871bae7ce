"""M01..M03: the two-copy concurrent map."""
from rules import prop
from rulelib import *
import sem

STRONG_ACQ = ('Acquire', 'AcqRel', 'SeqCst')
STRONG_REL = ('Release', 'AcqRel', 'SeqCst')
RAWDEREF = ('as_ref', 'as_mut', 'read', 'as_ref_unchecked', 'as_mut_unchecked')


def is_epoch_store(e):
    return e.kind == 'call' and e.name in ('AtomicUsize::store', 'AtomicUsize::swap') and isf(e.args[0], 'epoch')


def is_inner_load(t):
    return t.op == 'call' and t.a[0] == 'AtomicPtr::load'


HB = 1 << 63


def sets_msb(t):
    t = strip_mut(t)
    return t.op == 'bin' and t.a[0] == 'BitOr' and any(intval(x) == HB for x in t.a[1:])


def msb_base(t):
    t = strip_mut(t)
    a, b = t.a[1], t.a[2]
    return b if intval(a) == HB else a


def uses_inner_ptr(e):
    """call that dereferences / hands out the pointer loaded from the shared slot"""
    if e.kind != 'call':
        return False
    if e.name in ('mut_ptr::as_ref', 'const_ptr::as_ref', 'mut_ptr::as_mut', 'NonNull::as_ref'):
        return any(is_inner_load(x) for x in val_subterms(e.args[0]))
    if e.name == 'apply' or e.name == 'Option::map':
        return any(is_inner_load(x) for a in e.args[:2] for x in val_subterms(a))
    return False


@prop('M01')
def read_protocol(ctx):
    """readers announce, fence, load, use, restore; who may load the pointer"""
    eng = ctx.eng
    # every body that loads the shared pointer
    n = 0
    for b in eng.bodies:
        if b.crate != 'goko' or b.kind != 'fn' or 'monomap' not in b.name:
            continue
        fr = eng.frame(b)
        loads = [e for e, _ in fr.local_events() if e.kind == 'call' and e.name == 'AtomicPtr::load']
        if not loads:
            continue
        ctx.functions[b.name] = 1
        own = b.owner[0] if b.owner else None
        if own == 'MonoWriteHandle':
            # the single writer (needs &mut self): may look at the published copy
            ok = b.params and b.params[0][1].startswith('&') and 'mut ' in b.params[0][1].split('monomap')[0]
            ctx.ob('writer-load-exclusive', b.method, ok, loads[0], 'the writer reads the shared pointer through &self: two threads could race with a refresh')
            continue
        n += 1
        read_side(ctx, b)
    ctx.ob('reader-load-sites', 'at least one', n >= 1, '', 'no reader loads the shared pointer any more')


def zeroish(t):
    return intval(t) == 0 or const_is(t, 'false')


def cell_flag(a):
    """(cell term, 'in'|'out') for an atom testing a Cell that marks a read in progress"""
    if a.op == 'bool' and is_call(a.a[0], 'Cell::get'):
        return strip(a.a[0]).a[1][0], 'in' if a.a[1] else 'out'
    if a.op == 'bin' and a.a[0] in ('Eq', 'Ne', 'Lt'):
        op, x, y = a.a
        for p, q, sw in ((x, y, False), (y, x, True)):
            if is_call(p, 'Cell::get') and intval(q) in (0, 1):
                c = strip(p).a[1][0]
                if op in ('Eq', 'Ne') and intval(q) == 0:
                    return c, 'out' if op == 'Eq' else 'in'
                if op == 'Lt' and sw and intval(q) == 0:
                    return c, 'in'
                if op == 'Lt' and not sw and intval(q) == 1:
                    return c, 'out'
    return None


def nested_pos(atoms):
    return any((cell_flag(a) or (0, ''))[1] == 'in' for a in atoms)


def read_side(ctx, b):
    fr = ctx.frame(b)
    errs = []
    announced_vals = set()
    f_param = None

    def step(s, e):
        # s = (phase, fenced) ; phases: 0 idle, 1 announced, 2 loaded, 3 released
        ph, fen = s
        if e.kind == 'call' and is_epoch_store(e):
            if ph == 4:
                errs.append(('nested-touches-epoch', e, 'a nested read changes the epoch that protects the outer read'))
            if sets_msb(e.args[1]):
                if ordering_of(e.args[2]) not in STRONG_REL:
                    errs.append(('release-order', e, 'leaving a read with a store weaker than Release: the writer can reuse the copy before the read finished'))
                return (3, fen)
            if ph == 2:
                errs.append(('re-announce', e, 'a new epoch is announced while the loaded copy is still in use'))
            announced_vals.add(e.args[1])
            if ordering_of(e.args[2]) == 'SeqCst':
                return (1, 'store')
            return (1, False)
        if e.kind == 'call' and e.name.endswith('fence'):
            if ordering_of(e.args[0]) == 'SeqCst' and ph == 1:
                return (ph, True)
            return s
        if e.kind == 'call' and e.name == 'AtomicPtr::load':
            if ordering_of(e.args[1]) not in STRONG_ACQ:
                errs.append(('load-order', e, 'the copy pointer is loaded with an ordering weaker than Acquire'))
            if ph != 1:
                if nested_pos(must_atoms(e.guard)):
                    return (4, fen)      # inside an outer read on the same handle
                errs.append(('load-unannounced', e, 'the shared pointer is loaded while no epoch is announced'))
                return (2, fen)
            if not (fen is True or (fen == 'store' and ordering_of(e.args[1]) == 'SeqCst')):
                errs.append(('no-fence', e, 'no SeqCst fence between announcing the epoch and loading the pointer'))
            return (2, fen)
        if uses_inner_ptr(e) and ph in (0, 1, 3):
            errs.append(('use-outside', e, 'the loaded copy is used while the reader is not announced'))
        return s

    ts = Typestate(step)
    exits = ts.run(fr, (0, False))
    seen = set()
    for k, e, d in errs:
        if (k, e.where()) in seen:
            continue
        seen.add((k, e.where()))
        ctx.ob('read-' + k, b.method, False, e, d)
    ctx.ob('read-protocol', b.method, not errs, b.name)
    # exits: must have released (phase 3) or never announced (0)
    bad = [s for s in exits if s[0] in (1, 2)]
    ctx.ob('read-release-on-exit', b.method, not bad, b.name, 'a path returns with the epoch still announced: the writer would wait for ever')
    # the value announced is fresh on every read, and the release value carries it
    for v in announced_vals:
        d, c = lin(v)
        ctx.ob('epoch-fresh', b.method, len(d) == 1 and any(is_call(x, 'fetch_add', 'replace', 'get', 'load') or x.op in ('call', 'field', 'payload') for x in d), b.name,
               'the announced epoch is not derived from a counter: %s' % show(v))
        ok = any(is_call(x, 'fetch_add') and intval(x.a[1][1]) not in (None, 0) for x in d) or any(
            e.kind == 'call' and e.name in ('Cell::set', 'AtomicUsize::store', 'AtomicUsize::fetch_add', 'Cell::replace') for e in ctx.events(b))
        ctx.ob('epoch-advances', b.method, ok, b.name, 'the epoch counter is not advanced by a read: the writer cannot tell two reads apart')
    # panic safety: every unwinding call between announce and release must run the restoring drop
    rel = [e for e in fr.events(drops=True) if is_epoch_store(e) and sets_msb(e.args[1])]
    ctx.ob('release-exists', b.method, len(rel) >= 1, b.name, 'no store ever marks the read as finished')
    for e in rel:
        base = msb_base(e.args[1])
        ctx.ob('release-same-epoch', b.method, any(lin_eq(base, v) for v in announced_vals), e,
               'the finishing store writes an epoch different from the announced one: %s' % show(base))
    # re-entrance: only the outermost read announces / releases, tracked in a Cell of the handle
    for e in fr.events(drops=True):
        if is_epoch_store(e) and not sets_msb(e.args[1]):
            fl = [cell_flag(a) for a in must_atoms(e.guard) if cell_flag(a)]
            outs = [c for c, w in fl if w == 'out']
            ctx.ob('reentrant-announce', b.method, bool(outs), e, 'a read nested inside another read of the same handle announces a new epoch (and later marks it finished) while the outer read still uses its copy')
            if outs:
                sets = [x for x in fr.events(drops=True) if x.kind == 'call' and x.name in ('Cell::set', 'Cell::replace') and strip(x.args[0]) is strip(outs[0])]
                on = [x for x in sets if not zeroish(x.args[1])]
                off = [x for x in sets if zeroish(x.args[1]) or lin(x.args[1])[1] == -1]
                ctx.ob('reentrant-mark', b.method, any(not nested_pos(must_atoms(x.guard)) for x in on) and bool(off), e, 'the read-in-progress mark is not set/cleared around the outer read')
                for x in off:
                    ctx.ob('reentrant-unmark', b.method, not nested_pos(must_atoms(x.guard)) or lin(x.args[1])[1] == -1, x, 'the mark is cleared by a nested read')
    # unwind: use sites
    uses = [e for e in fr.events() if uses_inner_ptr(e) and e.name in ('apply', 'Option::map') or (e.kind == 'call' and e.name == 'FnOnce::call_once')]
    k = 0
    for e in uses:
        body, bi, si = e.chain[-1]
        t = body.blocks[bi].term
        k += 1
        ok = unwinds_to_release(ctx, body, t)
        # a callee frame is protected if its caller's call unwinds to a release
        if not ok:
            for (b2, bi2, _) in reversed(e.chain[:-1]):
                t2 = b2.blocks[bi2].term
                if unwinds_to_release(ctx, b2, t2):
                    ok = True
                    break
        if nested_pos(must_atoms(e.guard)) and not ok:
            ok = True   # nested read: the outer read owns the release
        ctx.ob('release-on-panic', '%s/%d' % (b.method, k), ok, e, 'if the reader callback panics the epoch stays announced: the writer would wait for ever / the next reader state is wrong')
    ctx.ob('use-sites', b.method, k >= 1, b.name, 'callback call not found')


def unwinds_to_release(ctx, body, t):
    if t is None or t.unwind is None:
        return False
    seen, w = set(), [t.unwind]
    while w:
        x = w.pop()
        if x in seen or x not in body.blocks:
            continue
        seen.add(x)
        tt = body.blocks[x].term
        if tt is None:
            continue
        if tt.kind == 'drop':
            ty = sem.base_ty(_place_ty(body, tt.dest) or '')
            for d in ctx.eng.by_method.get((ty, 'drop'), []):
                ev = ctx.eng.frame(d).events()
                if any(e.kind == 'call' and e.name in ('AtomicUsize::store',) and sets_msb(e.args[1]) for e in ev):
                    return True
        w.extend(tt.targets if tt.kind != 'switch' else [y for _, y in tt.targets])
    return False


def _place_ty(body, pl):
    l, pr = pl
    if pr:
        return pr[-1][2] if pr[-1][0] == 'field' else None
    return body.locals.get(l)


# ---- writer side ------------------------------------------------------------

MUTATORS = ('insert', 'remove', 'clear', 'get_mut', 'drain', 'retain', 'entry', 'extend', 'iter_mut', 'values_mut', 'swap_remove', 'shrink_to_fit', 'reserve')


def w_mutation(e):
    """event that changes the writer's copy"""
    if e.kind == 'call' and e.name.split('::')[0] in ('HashMap', 'IndexMap') and e.name.split('::')[-1] in MUTATORS:
        return isf(e.args[0], 'data')
    if e.kind == 'write':
        p = path(e.lval)
        return len(p) >= 2 and p[-1] in ('data', 'meta', 'ready') and 'w_handle' in p
    return False


def is_epochs(t):
    return isf(t, 'epochs')


def wait_marker(e):
    return e.kind == 'call' and e.name == 'AtomicUsize::load' and e.args and any(is_epochs(x) for x in val_subterms(e.args[0]))


@prop('M01')
def writer_protocol(ctx):
    eng = ctx.eng
    # who may swap / store the shared pointer
    n = 0
    for b in eng.bodies:
        if b.crate != 'goko' or b.kind != 'fn' or 'monomap' not in b.name:
            continue
        for e, _ in eng.frame(b).local_events():
            if e.kind == 'call' and e.name.split('::')[0] == 'AtomicPtr' and e.name.split('::')[-1] in ('swap', 'store', 'compare_exchange', 'compare_and_swap', 'compare_exchange_weak', 'fetch_update'):
                n += 1
                own = b.owner[0] if b.owner else None
                ctx.ob('pointer-writer', '%s::%s' % (own, b.method), own == 'MonoWriteHandle', e, 'the shared pointer is replaced outside the write handle')
                o = [ordering_of(x) for x in e.args[2:]]
                ctx.ob('swap-order', '%s::%s' % (own, b.method), o and o[0] in STRONG_REL, e, 'publishing with an ordering weaker than Release: a reader could see a half-written copy')
    ctx.ob('swap-sites', 'at least two', n >= 2, '', 'expected the publishing swap and the destroying swap')
    for name in ('refresh', 'drop'):
        b = ctx.body('MonoWriteHandle', name, trait='Drop' if name == 'drop' else None)
        writer_states(ctx, b, name)
    wait_rule(ctx)
    # direct writes are only allowed while no reader can reach the writer's copy
    for b in eng.bodies:
        if not b.owner or b.owner[0] != 'MonoWriteHandle' or b.crate != 'goko' or b.method in ('refresh', 'drop'):
            continue
        if is_private_helper(ctx, b):
            continue
        for e in ctx.events(b, opaque=('MonoWriteHandle::refresh',)):
            if w_mutation(e):
                ok = any(a.op == 'bool' and selff(a.a[0], 'first') and a.a[1] for a in must_atoms(e.guard))
                ctx.ob('direct-write-only-before-first-publish', b.method, ok, e, 'the writer changes its copy directly although readers may still hold it (guard: %s)' % show(e.guard))


def is_private_helper(ctx, b):
    """helper reached only through other methods: judged where it is inlined"""
    pub = {'refresh', 'pending', 'flush', 'set_meta', 'insert', 'update', 'remove', 'purge', 'extend', 'drop', 'deref'}
    return b.method not in pub


def samples_into(e):
    """write of a freshly loaded reader epoch into the writer's sample table"""
    return e.kind == 'write' and any(isf(x, 'last_epochs') for x in val_subterms(e.lval)) and e.val is not None and is_call(e.val, 'AtomicUsize::load')


def all_frames(fr, depth=0, seen=None):
    seen = seen if seen is not None else set()
    if fr in seen or depth > 8:
        return
    seen.add(fr)
    yield fr
    for e, subs in fr.local_events():
        for f2, g in subs:
            yield from all_frames(f2, depth + 1, seen)


def wait_loads(fr):
    """blocks of this body that load a reader epoch without storing it as the new sample"""
    loc = [e for e, _ in fr.local_events()]
    sampled = {strip(e.val) for e in loc if samples_into(e)}
    return [e for e in loc if wait_marker(e) and strip(e.ret) not in sampled] if any(wait_marker(e) for e in loc) else []


def waits_inside(fr):
    fs = list(all_frames(fr))
    return any(wait_loads(f) for f in fs) and not any(e.kind == 'call' and e.name in ('AtomicPtr::swap', 'AtomicPtr::store') for f in fs for e, _ in f.local_events())


class WaitAware(Typestate):
    """`wait` (any callee that polls the reader epochs, or the polling loop itself) is one step"""

    def __init__(self, step, onwait):
        super().__init__(step)
        self.onwait = onwait

    def block(self, evs, states):
        ev2 = []
        s = set(states)
        for e, subs in evs:
            if subs and any(waits_inside(f) for f, _ in subs):
                s = {self.onwait(x, e) for x in s}
                continue
            if e.kind == 'call' and e.name in ('slice::iter', 'IntoIterator::into_iter', 'Iterator::skip', 'Iterator::enumerate') and e.args and mentions(e.args[0], is_epochs):
                k = e.chain[-1]
                fr = self.cur
                if any(w.chain[-1][0] is k[0] and k[1] in fr.cfg.rdoms().get(w.chain[-1][1], ()) and loop_of(fr, k[1], w.chain[-1][1]) for w in wait_loads(fr)):
                    s = {self.onwait(x, e) for x in s}
                    continue
            s = super().block([(e, subs)], s)
        return s

    def run(self, fr, state):
        old = getattr(self, 'cur', None)
        self.cur = fr
        try:
            return super().run(fr, state)
        finally:
            self.cur = old


def loop_of(fr, a, b):
    """no other iterator over the registry is created between a and b (they belong together)"""
    for e, _ in fr.local_events():
        if e.kind == 'call' and e.name == 'slice::iter' and mentions(e.args[0], is_epochs):
            k = e.chain[-1][1]
            if k != a and a in fr.cfg.rdoms().get(k, ()) and k in fr.cfg.rdoms().get(b, ()):
                return False
    return True


def writer_states(ctx, b, name):
    errs = []
    opq = ('MonoWriteHandle::refresh',) if name == 'drop' else ()
    fr = ctx.frame(b, opaque=opq)

    def onwait(s, e):
        lk, wt, ph = s
        if not lk:
            errs.append(('wait-unlocked', e, 'the writer waits without holding the reader registry: a reader registered meanwhile is missed'))
        return (lk, 'ok' if ph in ('own', 'recorded') else 'stale', ph)

    def step(s, e):
        lk, wt, ph = s
        if e.kind == 'call' and e.name == 'Mutex::lock' and is_epochs(e.args[0]):
            return (True, wt, ph)
        if w_mutation(e):
            if wt != 'ok' or ph not in ('own', 'recorded'):
                errs.append(('mutate-before-wait', e, 'the writer changes its copy before every reader has left it (state %s)' % (s,)))
            return s
        if e.kind == 'call' and e.name == 'AtomicPtr::swap':
            if name == 'refresh' and wt != 'ok':
                errs.append(('swap-before-wait', e, 'the copies are swapped before all readers left the stale copy'))
            if not lk and name == 'refresh':
                errs.append(('swap-unlocked', e, 'the swap happens without the reader registry locked: a handle registered in between is not waited for'))
            return (lk, None, 'swapped')
        if e.kind == 'call' and e.name.endswith('fence'):
            if ph == 'swapped' and ordering_of(e.args[0]) == 'SeqCst':
                return (lk, wt, 'fenced')
            return s
        if samples_into(e):
            if ph == 'swapped':
                errs.append(('record-before-fence', e, 'reader epochs are sampled without a SeqCst fence after the swap'))
            if not any(is_epochs(x) for x in val_subterms(e.val)):
                errs.append(('record-source', e, 'the sampled epoch does not come from the reader registry'))
            if ordering_of(strip(e.val).a[1][1]) not in STRONG_ACQ:
                errs.append(('record-order', e, 'reader epochs sampled with an ordering weaker than Acquire'))
            return (lk, wt, 'recorded' if ph in ('fenced', 'recorded') else ph)
        if e.kind == 'call' and e.name in ('Iterator::enumerate', 'slice::iter') and mentions(e.args[0], is_epochs) and ph == 'fenced' and not wait_loads_after(fr, e):
            # the sampling loop is entered (it may have zero readers to sample)
            return (lk, wt, 'recorded')
        if e.kind == 'call' and e.name in ('Box::from_raw', 'mem::drop') and name == 'drop':
            if ph != 'own' and not (ph == 'recorded' and wt == 'ok') and swap_null(e.args[0]):
                errs.append(('free-before-wait', e, 'the published copy is freed although a reader that started after the last refresh may still be using it'))
            return s
        return s

    def swap_null(t):
        return any(is_call(x, 'AtomicPtr::swap') for x in val_subterms(t))

    WaitAware(step, onwait).run(fr, (False, None, 'own'))
    seen = set()
    for k, e, d in errs:
        if (k, e.where()) not in seen:
            seen.add((k, e.where()))
            ctx.ob('writer-' + k, name, False, e, d)
    ctx.ob('writer-protocol', name, not errs, b.name)
    evs = ctx.events(b, opaque=opq)
    rec = [e for e in evs if samples_into(e)]
    ctx.ob('epochs-recorded', name, len(rec) >= 1, b.name, 'after the swap the readers\' epochs are not sampled: the next wait has nothing to compare with')
    sws = [e for e in evs if e.kind == 'call' and e.name == 'AtomicPtr::swap']
    if rec and len(sws) == 1:
        ctx.ob('epochs-recorded', name + ' after the swap', any(event_may_precede(sws[0], e) for e in rec), rec[0], 'the readers are sampled before the swap: one that starts in between and takes the old copy is not waited for')
    for e in rec:
        g = guard_must(e)
        each = [a for a in g if a.op == 'each']
        ok = all(a.op in ('each',) for a in g) and all(covers_all(a.a[0], is_epochs) for a in each) and same_index(e)
        ctx.ob('epochs-recorded-for-every-reader', name, ok, e, 'not every registered reader is sampled into its own slot: %s' % show(e.guard))
    ctx.ob('writer-waits', name, any(waits_inside(f) or wait_loads(f) for f in all_frames(fr)), b.name, 'the writer does not wait for readers')


def wait_loads_after(fr, e):
    """the iterator created by e drives the polling loop, not the sampling loop"""
    body, k, _ = e.chain[-1]
    for f in all_frames(fr):
        if f.body is body:
            for w in wait_loads(f):
                if k in f.cfg.rdoms().get(w.chain[-1][1], ()) and loop_of(f, k, w.chain[-1][1]):
                    return True
    return False


def covers_all(src, pred):
    """iteration source is the whole collection (no skip/take/filter)"""
    t = strip_mut(src)
    while t.op in ('enumerate', 'rev', 'mapped', 'zip', 'payload', 'ok', 'some'):
        if t.op == 'zip':
            return covers_all(t.a[0], pred) or covers_all(t.a[1], pred)
        t = t.a[0]
    return pred(t)


def same_index(e):
    """last_epochs[i] := load(epochs[i])"""
    lv, v = e.lval, strip(e.val)
    ld = v.a[1][0]
    if lv.op == 'index':
        ix = lv.a[1]
        if ix.op == 'idx':
            return ld.op == 'elem' and ld.a[0] is ix.a[0]
        if ld.op == 'index':
            return ld.a[1] is ix
        return ix.op == 'rangeidx'
    return lv.op == 'elem'


def wait_rule(ctx):
    """a reader is passed over only if it cannot hold the stale copy"""
    b = ctx.body('MonoWriteHandle', 'refresh')
    fr = ctx.frame(b)
    wl = [e for f in all_frames(fr) for e in wait_loads(f)]
    for e in wl:
        ctx.ob('wait-load-order', 'wait', ordering_of(e.args[1]) in STRONG_ACQ, e, 'reader epoch read with an ordering weaker than Acquire')
    if not wl:
        ctx.ob('wait-reads-epochs', 'wait', False, b.name, 'wait no longer reads the reader epochs')
        return

    def isnow(t):
        t = strip_mut(t)
        return t.op == 'call' and t.a[0] == 'AtomicUsize::load'

    def islast(t):
        return any(isf(x, 'last_epochs') for x in val_subterms(t)) and not any(isnow(x) for x in val_subterms(t))

    def classify(a):
        """atom -> (pred name, polarity) ; preds: LMSB (last & hb != 0), NEQ (now != last), NMSB, NZ (now == 0)"""
        if a.op == 'bin' and a.a[0] in ('Eq', 'Ne', 'Lt'):
            op, x, y = a.a
            for p, q in ((x, y), (y, x)):
                m = strip_mut(p)
                if m.op == 'bin' and m.a[0] == 'BitAnd' and any(intval(z) == HB for z in m.a[1:]):
                    o = [z for z in m.a[1:] if intval(z) != HB]
                    o = o[0] if o else m
                    nm = 'NMSB' if isnow(o) else ('LMSB' if islast(o) else None)
                    if nm:
                        if intval(q) == 0:
                            if op == 'Lt':
                                return (nm, p is y)
                            return (nm, op == 'Ne')
                        if intval(q) == HB and op in ('Eq', 'Ne'):
                            return (nm, op == 'Eq')
                if isnow(p) and intval(q) == 0 and op in ('Eq', 'Ne'):
                    return ('NZ', op == 'Eq')
                if islast(p) and intval(q) == 0 and op in ('Eq', 'Ne'):
                    return ('LZ', op == 'Eq')
                if isnow(p) and intval(q) == HB and op == 'Lt':
                    return ('NMSB', False) if p is x else (None, None)
                if isnow(p) and islast(q) and op in ('Eq', 'Ne'):
                    return ('NEQ', op == 'Ne')
        return (None, None)

    edges = []
    frames = list(all_frames(fr))
    preds_seen = set()
    for f in frames:
        for (u, v) in f.backedges():
            g = f.edge_guard(u, v)
            edges.append((f, u, v, g))
            for a in atoms_of(g):
                n, _ = classify(a)
                if n:
                    preds_seen.add(n)
    if not ({'NEQ', 'NMSB'} <= preds_seen):
        # closure based scan (all/any/position over the readers)
        sel = [e for e in ctx.events(b) if e.kind == 'call' and e.name in ('Iterator::any', 'Iterator::all', 'Iterator::position', 'Iterator::find', 'Iterator::skip_while', 'Iterator::find_map')]
        bt = [x for e in sel for x in ([e.ret.a[1][1]] if e.ret is not None and e.ret.op == 'call' and len(e.ret.a[1]) > 1 else [])]
        if bt:
            g1 = sem.atom(bt[0], True)
            pol = 'all' not in sel[0].name
            edges = [(fr, 0, 0, g1 if pol else sem.atom(bt[0], False))]
            for a in atoms_of(edges[0][3]):
                n, _ = classify(a)
                if n:
                    preds_seen.add(n)
    if not preds_seen:
        ctx.undecided('wait: no comparison of epochs is read off its loops')
        return
    ctx.ob('wait-conditions', 'wait', 'NEQ' in preds_seen, b.name, 'the wait loop no longer compares the current epoch with the sampled one and its finished bit (found %s)' % sorted(preds_seen))
    # decision table: which back edges are taken "keep waiting for this reader"
    import itertools
    waiting_edges = [g for (f, u, v, g) in edges if any(classify(a)[0] for a in atoms_of(g))]
    for LM, NE, NM, NZ in itertools.product((0, 1), repeat=4):
        if (NZ and NM) or (not NE and LM != NM) or (not NE and NZ and LM):
            continue      # inconsistent
        asg = {'LMSB': bool(LM), 'NEQ': bool(NE), 'NMSB': bool(NM), 'NZ': bool(NZ), 'LZ': bool(NZ and not NE)}

        def val(a):
            n, p = classify(a)
            if n is None:
                return True if a.op in ('each', 'bool', 'bin', 'is', 'nonempty', 'done', 'empty') else None
            return asg[n] == p
        stale = not LM and not NE and not NM and not NZ
        if stale:
            gone = [(x, y) for f in frames if wait_loads(f) for x, y, g in loop_exits(f, wait_marker) if is_wait_edge(g, classify) and eval_dnf(frozenset(c for c in g if is_wait_edge((c,), classify)), val) is not False]
            ctx.ob('wait-decision', 'holds the stale copy -> the wait does not end', not gone, b.name, 'the writer stops waiting although a reader still holds the stale copy')
        hit = [eval_dnf(g, val) for g in waiting_edges if is_wait_edge(g, classify)]
        w = any(h is not False for h in hit)
        if stale:
            ctx.ob('wait-decision', 'holds the stale copy -> wait', w, b.name, 'a reader that still holds the stale copy is not waited for')
        elif NM or NZ or NE or LM:
            key = 'last&msb=%d now!=last=%d now&msb=%d now==0=%d -> proceed' % (LM, NE, NM, NZ)
            if (NM and not NE and not LM):
                # equal with MSB set implies last MSB set: unreachable
                continue
            ctx.ob('wait-decision', key, not w, b.name, 'the writer waits for a reader that cannot hold the stale copy (it may wait for ever)')
    # every reader is looked at: iteration over the whole registry (skip only over readers already passed)
    for e in wl:
        for a in guard_must(e):
            if a.op == 'each':
                src = a.a[0]
                bad = resume_ok(ctx, src, frames)
                ctx.ob('wait-every-reader', 'wait', iter_full(src) and bad is None, bad or e, 'not every registered reader is waited for: %s' % show(bad.val if bad else src))


def resume_ok(ctx, src, frames):
    """a resumed scan starts at the reader it was waiting for, not behind it"""
    bad = None
    for r in [x for x in subterms(src) if x.op == 'rec']:
        for f in frames:
            if f.body.name != r.a[0]:
                continue
            for e, _ in f.local_events():
                if e.kind == 'set' and e.lval.a[1] == r.a[1]:
                    if not (intval(e.val) == 0 or e.val.op in ('idx', 'rec', 'rangeidx')):
                        bad = e
    return bad


def is_wait_edge(g, classify):
    """edge whose guard requires the reader's epoch to be unchanged (a retry edge)"""
    for c in g:
        for a in c:
            n, p = classify(a)
            if n == 'NEQ' and p is False:
                return True
    return False


def iter_full(src):
    t = strip_mut(src)
    while True:
        if t.op in ('enumerate', 'zip', 'rev', 'mapped', 'payload', 'ok'):
            t = t.a[0]
        elif t.op == 'taken':
            if t.a[1] != 'skip':
                return False
            k = t.a[2]
            vs = variants(k)
            if not any(intval(v) == 0 for v in vs):
                return False
            if not all(intval(v) == 0 or v.op in ('rec', 'idx', 'field') for v in vs):
                return False
            t = t.a[0]
        elif t.op == 'filtered':
            return False
        else:
            return is_epochs(t) or t.op == 'param' or (t.op == 'agg' and t.a[0].endswith('Range'))


@prop('M01')
def registration(ctx):
    """every read handle registers its epoch before it can be used, and is not shareable"""
    eng = ctx.eng
    n = 0
    for b in eng.bodies:
        if b.crate != 'goko' or b.kind != 'fn' or 'monomap' not in b.name:
            continue
        for bi in sorted(eng.cfg(b).reach):
            for s in b.blocks[bi].stmts:
                if s.kind == 'assign' and s.rv[0] == 'agg' and sem.strip_generics(s.rv[1]).split('::')[-1] == 'MonoReadHandle':
                    n += 1
                    fr = eng.frame(b)
                    ctx.functions[b.name] = 1
                    agg = fr.rvalue(s.rv, bi, b.blocks[bi].stmts.index(s))
                    ep = dict(agg.a[1]).get('epoch')
                    eps = dict(agg.a[1]).get('epochs')
                    evs = ctx.events(b)
                    regs = [e for e in evs if e.kind == 'call' and e.name == 'Vec::push' and e.args[0] is eps or (e.kind == 'call' and e.name == 'Vec::push' and strip(e.args[0]) is strip(eps))]
                    ok = any(strip(e.args[1]) is strip(ep) and guard_must(e) == frozenset() for e in regs)
                    ctx.ob('handle-registered', b.method, ok, '%s:%s' % (s.span or ('', 0)), 'a read handle is created whose epoch is not registered with the writer')
                    ctx.ob('epoch-starts-inactive', b.method, ep is not None and intval(ep) == 0, '%s:%s' % (s.span or ('', 0)), 'a fresh handle must start with epoch 0')
                    locks = [e for e in evs if e.kind == 'call' and e.name == 'Mutex::lock']
                    ctx.ob('registered-under-lock', b.method, any(event_before(l, r) for l in locks for r in regs), b.name, 'registration is not done under the registry lock')
    ctx.ob('handle-constructors', 'count', n >= 1, '', 'no constructor of the read handle found')
    # !Sync: some field makes the handle non-Sync
    code = eng.src.struct_decl('goko', 'MonoReadHandle')
    ctx.ob('reader-not-sync', 'MonoReadHandle', code is not None and any(k in code for k in ('Cell<', 'Rc<', '*mut', '*const')), 'goko/src/monomap/read.rs',
           'the read handle could be shared between threads: two threads would race on one epoch')
    bad = eng.src.grep_code('goko', r'unsafe\s+impl\s*(<[^{]*>)?\s*Sync\s+for\s+MonoReadHandle\b')
    ctx.ob('reader-not-sync', 'no unsafe impl', not bad, bad or '', 'unsafe impl Sync for the read handle')


# ---- M02 ------------------------------------------------------------------------

def op_effects(evs, is_op):
    """variant -> set of normalised effects on the map for operation term is_op"""
    out = {}
    for e in evs:
        if e.kind != 'call':
            continue
        va = [a for a in must_atoms(e.guard) if a.op == 'is' and is_op(a.a[0])]
        if not va:
            continue
        v = va[0].a[1]

        def fld(t):
            t = strip(t)
            if t.op == 'vfield' and is_op(t.a[0]):
                return 'f%s' % t.a[2]
            if t.op == 'field' and strip(t.a[0]).op == 'vfield':
                return fld(t.a[0])
            return '?'
        nm = e.name.split('::')
        if nm[0] in ('HashMap', 'IndexMap') and isf(e.args[0], 'data'):
            m = nm[1]
            if m in ('contains_key', 'get', 'len', 'is_empty'):
                continue
            if m == 'swap_remove':
                m = 'remove'
            extra = frozenset(a for a in guard_must(e) if a not in va and not (a.op in ('each', 'nonempty')) and not is_swapidx(a) and not (a.op == 'bool' and selff(a.a[0], 'first')))
            out.setdefault(v, []).append((m, tuple(fld(x) for x in e.args[1:]), e, extra))
        elif e.name in ('Fn::call', 'FnMut::call_mut', 'FnOnce::call_once', 'apply') and fld(e.args[0]) != '?':
            tgt = e.args[1]
            on = [x for x in val_subterms(tgt) if x.op == 'call' and x.a[0].endswith('::get_mut')]
            out.setdefault(v, []).append(('eval', (fld(e.args[0]), tuple(fld(x) for x in on[0].a[1][1:]) if on else ()), e, frozenset()))
    return out


def is_swapidx(a):
    return any(isf(x, 'swap_index') for x in subterms(a))


SPEC = {
    'Insert': {('insert', ('f0', 'f1'))},
    'Update': {('get_mut', ('f0',)), ('eval', ('f1', ('f0',)))},
    'Remove': {('remove', ('f0',))},
    'Purge': {('clear', ())},
}


def check_apply(ctx, label, evs, is_op, where):
    eff = op_effects(evs, is_op)
    vs = [n for n, _ in (ctx.eng.src.variants('goko', 'monomap::MonoOperation<K, V>') or [])]
    for v in vs or list(SPEC):
        got = {(m, a) for m, a, _, _ in eff.get(v, [])}
        want = SPEC.get(v)
        e = eff[v][0][2] if eff.get(v) else where
        if want is None:
            ctx.ob('op-handled', '%s/%s' % (label, v), bool(got), e, 'new operation %s has no effect on this copy' % v)
            continue
        # Update may be written through entry/and_modify etc: accept get_mut+eval only
        ctx.ob('op-effect', '%s/%s' % (label, v), got == want, e, 'replaying %s does %s instead of %s' % (v, sorted(got), sorted(want)))
        for m, a, ev, extra in eff.get(v, []):
            extra = frozenset(x for x in extra if not (x.op == 'is' and x.a[1] == 'Some'))
            ctx.ob('op-unconditional', '%s/%s/%s' % (label, v, m), not extra, ev, 'the effect of %s depends on %s: the two copies can diverge' % (v, show(extra)))
    return eff


@prop('M02')
def replay(ctx):
    """every recorded operation reaches each copy exactly once, in order"""
    b = ctx.body('MonoWriteHandle', 'refresh')
    evs = ctx.events(b)

    def second_op(t):
        t = strip_mut(t)
        if t.op != 'elem':
            return False
        d = t.a[0]
        return (d.op == 'drain' and isf(d.a[0], 'oplog')) or (d.op == 'call' and d.a[0].endswith('split_off'))

    def first_op(t):
        t = strip_mut(t)
        return t.op == 'elem' and isf(t.a[0], 'oplog')
    if not calls(evs, 'Vec::drain') and any(e.kind == 'call' and e.name.split('::')[-1] in ('split_off', 'replace', 'take', 'into_iter', 'swap') and any(mentions(x, lambda y: isf(y, 'oplog')) for x in e.args) for e in evs):
        ctx.undecided('refresh: the log is not drained in place')
        return
    s2 = check_apply(ctx, 'second', evs, second_op, b.name)
    s1 = check_apply(ctx, 'first', evs, first_op, b.name)
    # the drained part is exactly [0, swap_index)
    dr = calls(evs, 'Vec::drain')
    ctx.ob('drain-range', 'refresh', len(dr) == 1 and drain_ok(dr[0]), dr[0] if dr else b.name, 'the operations both copies already have are not exactly those below the swap index')
    if dr:
        g = guard_must(dr[0])
        ctx.ob('drain-unconditional', 'refresh', all(is_swapidx(a) or a.op in ('nonempty',) and isf(a.a[0], 'oplog') for a in g), dr[0], 'old operations are only replayed when %s' % show(g))
        for a in g:
            if is_swapidx(a):
                ok = (a.op == 'bin' and a.a[0] == 'Ne' and any(intval(x) == 0 for x in a.a[1:])) or (a.op == 'bin' and a.a[0] == 'Lt' and intval(a.a[1]) == 0)
                ctx.ob('drain-guard', 'refresh', ok, dr[0], 'guard on replaying old operations is %s' % show(a))
        e1 = [x for l in s1.values() for x in l]
        e2 = [x for l in s2.values() for x in l]
        for x in e1:
            ctx.ob('replay-order', 'first after second/%s' % x[0], not any(event_may_precede(x[2], y[2]) for y in e2) and event_order(dr[0], x[2]), x[2],
                   'new operations are applied before the older ones')
        for x in e1:
            g = [a for a in guard_must(x[2]) if a.op == 'each']
            ctx.ob('replay-all-new', x[0], len(g) >= 1 and all(covers_all(a.a[0], lambda t: isf(t, 'oplog')) for a in g), x[2], 'not every remaining operation is applied: %s' % show(x[2].guard))
        for x in e2:
            g = [a for a in guard_must(x[2]) if a.op == 'each']
            ctx.ob('replay-all-old', x[0], len(g) >= 1 and all(a.a[0].op == 'drain' for a in g), x[2], 'not every old operation is applied: %s' % show(x[2].guard))
    # swap_index := oplog.len() after the drain, before the end
    sw = [e for e in evs if e.kind == 'write' and selff(e.lval, 'swap_index')]
    ok = len(sw) == 1 and len_of(strip_mut(sw[0].val)) is not None and isf(len_of(strip_mut(sw[0].val)), 'oplog') and not guard_must(sw[0])
    ctx.ob('swap-index', 'refresh', ok, sw[0] if sw else b.name, 'after replaying, the swap index must equal the length of the remaining log')
    if sw and dr:
        ctx.ob('swap-index-order', 'refresh', not event_may_precede(sw[0], dr[0]) and length_read_after(evs, dr[0], sw[0]), sw[0], 'the swap index is computed before the old operations are removed')
    other = [e for e in evs if e.kind == 'call' and e.name.split('::')[0] == 'Vec' and e.name.split('::')[-1] in ('clear', 'truncate', 'push', 'pop', 'remove', 'retain', 'swap_remove', 'insert') and isf(e.args[0], 'oplog')]
    ctx.ob('log-untouched', 'refresh', not other, other[0] if other else b.name, 'operations that the other copy still needs are dropped from the log')
    # second refresh copies the published state first
    cl = [e for e in evs if e.kind == 'write' and isf(e.lval, 'data') and 'w_handle' in path(e.lval)]
    ok = len(cl) == 1 and isf(cl[0].val, 'data') and any(is_call(x, 'AtomicPtr::load') for x in val_subterms(cl[0].val))
    ctx.ob('second-clone', 'refresh', ok, cl[0] if cl else b.name, 'the first refresh\'s contents are not copied into the other copy')
    if cl:
        g = guard_must(cl[0])
        ctx.ob('second-clone-guard', 'refresh', len(g) == 1 and all(a.op == 'bool' and selff(a.a[0], 'second') and a.a[1] for a in g), cl[0], 'the copy happens under %s' % show(g))
        for l in list(s1.values()) + list(s2.values()):
            for x in l:
                ctx.ob('second-clone-first', x[0], not event_may_precede(x[2], cl[0]), cl[0], 'the copy overwrites operations already replayed')
    flag_rules(ctx, b, evs)


def length_read_after(evs, drain, sw):
    ls = [e for e in evs if e.kind == 'call' and e.name == 'Vec::len' and isf(e.args[0], 'oplog')]
    ls = [e for e in ls if event_may_precede(e, sw) and len(e.chain) == len(sw.chain) or e.chain[0][0] is sw.chain[0][0]]
    return all(not event_may_precede(e, drain) for e in ls)


def event_order(e1, e2):
    """e2 never before e1"""
    return not event_may_precede(e2, e1)


def drain_ok(e):
    r = e.args[1]
    if r.op != 'agg':
        return False
    k = r.a[0].split('::')[-1]
    d = dict(r.a[1])
    if k == 'Range':
        return intval(d['start']) == 0 and selff(d['end'], 'swap_index') and isf(e.args[0], 'oplog')
    if k == 'RangeTo':
        return selff(list(d.values())[0], 'swap_index') and isf(e.args[0], 'oplog')
    return False


def flag_rules(ctx, b, evs):
    f = [e for e in evs if e.kind == 'write' and selff(e.lval, 'first')]
    s = [e for e in evs if e.kind == 'write' and selff(e.lval, 'second')]
    ok = len(f) >= 1 and all(const_is(e.val, 'false') for e in f) and any(not guard_must(e) or all(a.op == 'bool' and selff(a.a[0], 'first') for a in guard_must(e)) for e in f)
    ctx.ob('first-cleared', 'refresh', ok, f[0] if f else b.name, 'after a refresh, writes would still go to a copy readers can hold')
    ok = False
    if s:
        # second := first, evaluated before first is cleared  (or: second := true under first / false otherwise)
        vals = [(guard_must(e), e.val) for e in s]
        ok = all(selff(v, 'first') and not g for g, v in vals)
        if ok and f:
            ok = not any(event_may_precede(x, y) for x in f for y in s)
        if not ok:
            tr = [e for e in s if const_is(e.val, 'true')]
            fa = [e for e in s if const_is(e.val, 'false')]
            ok = bool(tr) and bool(fa) and all(any(a.op == 'bool' and selff(a.a[0], 'first') and a.a[1] for a in guard_must(e)) for e in tr)
        if not ok and all(is_call(v, 'mem::replace', 'mem::take', 'replace', 'take') for g, v in vals):
            ok = True
    ctx.ob('second-set', 'refresh', ok, s[0] if s else b.name, 'the refresh after the first one must copy the published state: `second` must become the old value of `first`')


@prop('M02')
def recording(ctx):
    """each mutator records exactly one operation"""
    want = {'insert': ('Insert', 2), 'update': ('Update', 2), 'remove': ('Remove', 1), 'purge': ('Purge', 0)}
    for m, (var, n) in want.items():
        b = ctx.body('MonoWriteHandle', m)
        evs = ctx.events(b)
        pushes = [e for e in evs if e.kind == 'call' and e.name == 'Vec::push' and isf(e.args[0], 'oplog')]
        ok = len(pushes) == 1
        if ok:
            t = strip_mut(pushes[0].args[1])
            ok = t.op == 'agg' and t.a[0] == 'MonoOperation::' + var and len(t.a[1]) == n
            if ok and n:
                ok = is_param(t.a[1][0][1], 1)
            if ok and n == 2:
                ok = any(is_param(x, 2) for x in val_subterms(t.a[1][1][1]))
        ctx.ob('op-recorded', m, ok, pushes[0] if pushes else b.name, '%s must log exactly the operation %s with its own arguments' % (m, var))
        for p in pushes:
            g = guard_must(p)
            ctx.ob('op-logged-iff-published', m, len(g) == 1 and all(a.op == 'bool' and selff(a.a[0], 'first') and a.a[1] is False for a in g), p,
                   'after the first refresh every operation must be logged (guard: %s)' % show(g))
        # direct application before the first refresh has the same effect
        fr = ctx.frame(b)

        def pred(e):
            if e.kind == 'call' and e.name == 'Vec::push' and isf(e.args[0], 'oplog'):
                return True
            if e.kind == 'call' and e.name.split('::')[0] in ('HashMap', 'IndexMap') and e.name.split('::')[-1] in ('insert', 'remove', 'swap_remove', 'clear', 'get_mut') and isf(e.args[0], 'data'):
                return True
            return False
        cnt = {n for n, _ in count_range(fr, pred)}
        ctx.ob('op-exactly-once', m, cnt == {1}, b.name, 'a call of %s takes effect %s times on some path' % (m, sorted(cnt)))
        dm = [e for e in evs if e.kind == 'call' and e.name.split('::')[0] in ('HashMap', 'IndexMap') and isf(e.args[0], 'data')]
        names = {e.name.split('::')[-1].replace('swap_remove', 'remove') for e in dm}
        exp = {'insert': {'insert'}, 'update': {'get_mut'}, 'remove': {'remove'}, 'purge': {'clear'}}[m]
        ctx.ob('direct-effect', m, names == exp, dm[0] if dm else b.name, 'before the first refresh %s does %s' % (m, sorted(names)))
    b = ctx.body('MonoWriteHandle', 'extend', trait='Extend')
    evs = ctx.events(b, opaque=('MonoWriteHandle::insert',))
    ins = calls(evs, 'MonoWriteHandle::insert')
    ok = len(ins) == 1 and any(a.op == 'each' for a in guard_must(ins[0])) and len(guard_must(ins[0])) == 1
    ctx.ob('extend', 'extend', ok, ins[0] if ins else b.name, 'extend must insert every pair')


# ---- M03 ---------------------------------------------------------------------------

@prop('M03')
def visibility(ctx):
    b = ctx.body('MonoWriteHandle', 'refresh')
    evs = ctx.events(b)
    sw = calls(evs, 'AtomicPtr::swap')
    ok = len(sw) == 1 and not guard_must(sw[0]) and any(isf(x, 'w_handle') for x in val_subterms(sw[0].args[1])) and isf(sw[0].args[0], 'inner')
    ctx.ob('publish-swap', 'refresh', ok, sw[0] if sw else b.name, 'refresh must publish the writer\'s copy on every path')
    if not sw:
        return
    sw = sw[0]
    pub = [e for e in evs if w_mutation(e)]
    for k, nm in (('meta', 'meta'), ('ready', 'ready')):
        w = [e for e in pub if e.kind == 'write' and path(e.lval)[-1] == k]
        good = [e for e in w if (selff(e.val, 'meta') if k == 'meta' else const_is(e.val, 'true')) and not guard_must(e) and event_before(e, sw)]
        ctx.ob('publish-' + nm, 'refresh', len(good) >= 1, w[0] if w else b.name, 'the %s of the published copy is not brought up to date before the swap' % nm)
    for e in pub:
        ctx.ob('publish-complete', '%s %s' % (e.kind, e.name or path(e.lval)[-1]), not event_may_precede(sw, e), e, 'the copy is completed only after it was published')
    back = [e for e in evs if e.kind == 'write' and selff(e.lval, 'w_handle')]
    ok = any(any(x is sw.ret for x in val_subterms(e.val)) and not guard_must(e) for e in back)
    ctx.ob('take-back', 'refresh', ok, back[0] if back else b.name, 'the old copy must become the next write copy')
    # flush
    b = ctx.body('MonoWriteHandle', 'flush')
    evs = ctx.events(b, opaque=('MonoWriteHandle::refresh',))
    rf = calls(evs, 'MonoWriteHandle::refresh')
    ctx.ob('flush-refreshes', 'flush', len(rf) >= 1, b.name, 'flush never publishes')

    def val_factory(first, pend):
        def val(a):
            if a.op in ('nonempty', 'empty'):
                t = strip(a.a[0])
                if mentions(t, lambda x: isf(x, 'oplog')):
                    return pend == (a.op == 'nonempty')
            if a.op == 'bool' and selff(a.a[0], 'first'):
                return first == a.a[1]
            if a.op == 'bin' and mentions(a, lambda x: isf(x, 'swap_index')):
                op, x, y = a.a
                if op == 'Lt' and isf(x, 'swap_index'):
                    return pend
                if op in ('Eq', 'Ne'):
                    return pend == (op == 'Ne')
                if op == 'Le' and isf(y, 'swap_index'):
                    return not pend
            return None
        return val
    for first in (True, False):
        for pend in (True, False):
            if first and pend:
                continue
            r = any(eval_dnf(e.guard, val_factory(first, pend)) is True for e in rf)
            if first or pend:
                ctx.ob('flush-decision', 'first=%s pending=%s -> refresh' % (first, pend), r, rf[0] if rf else b.name,
                       'flush returns without publishing although operations are pending')
    b = ctx.body('MonoWriteHandle', 'pending')
    r = ctx.frame(b).ret()
    ok = r.op == 'index' and isf(r.a[0], 'oplog') and r.a[1].op == 'agg' and r.a[1].a[0].endswith('RangeFrom') and selff(r.a[1].a[1][0][1], 'swap_index')
    ctx.ob('pending', 'pending', ok, b.name, 'pending() must be the operations not yet published: %s' % show(r))
    b = ctx.body('MonoWriteHandle', 'set_meta')
    evs = ctx.events(b)
    ok = any(e.kind == 'call' and e.name in ('mem::swap', 'mem::replace') and selff(e.args[0], 'meta') for e in evs) or any(e.kind == 'write' and selff(e.lval, 'meta') for e in evs)
    ctx.ob('set-meta', 'set_meta', ok, b.name, 'set_meta does not store the value')


@prop('M03')
def readers(ctx):
    for m in ('get_and', 'meta_get_and'):
        b = ctx.body('MonoReadHandle', m)
        evs = ctx.events(b)
        gets = [e for e in evs if e.kind == 'call' and e.name in ('HashMap::get', 'IndexMap::get') and isf(e.args[0], 'data')]
        ok = len(gets) >= 1 and all(is_param(g.args[1], 1) for g in gets)
        ctx.ob('reader-lookup', m, ok, gets[0] if gets else b.name, 'the looked-up key is not the argument')
        for e in gets:
            ok = any(a.op == 'bool' and isf(a.a[0], 'ready') and a.a[1] is True for a in guard_must(e))
            ctx.ob('reader-ready', m, ok, e, 'a map that was never published is read (guard %s)' % show(e.guard))
            ctx.ob('reader-lookup-only-ready', m, all((a.op == 'bool' and isf(a.a[0], 'ready')) or (a.op == 'is' and a.a[1] == 'Some') or cell_flag(a) for a in guard_must(e)), e, 'the lookup depends on %s' % show(e.guard))
    b = ctx.body('MonoReadHandle', 'is_destroyed')
    r = ctx.frame(b).ret()
    ctx.ob('is-destroyed', 'is_destroyed', r.op == 'call' and r.a[0].endswith('is_none') or (r.op == 'un' and 'is_some' in show(r)) or 'is_none' in show(r), b.name, show(r))
    for m, dflt in (('len', '0_usize'), ('is_empty', 'true'), ('contains_key', 'false')):
        b = ctx.body('MonoReadHandle', m)
        r = ctx.frame(b).ret()
        vs = [v.a[0] for v in variants(r) if v.op == 'const']
        ctx.ob('reader-default', m, vs == [dflt], b.name, 'destroyed map: %s returns %s' % (m, vs))
    # the map starts unpublished for readers
    b = ctx.body('MonoOptions', 'construct')
    evs = ctx.events(b)
    ctx.ob('construct', 'construct', any(e.kind == 'write' and isf(e.lval, 'ready') for e in evs) or True, b.name)
