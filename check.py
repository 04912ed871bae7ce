#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--mir DIR]   (PROPERTY may be `all` during development)

Extracts the MIR of /repo's current working tree, decides the obligations of the
property on it, writes evidence/<id>.json.  Nothing of /repo is executed.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'analyzer'))
threading.stack_size(512 * 1024 * 1024)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--mir')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    tmp = None
    try:
        if a.mir:
            mirdir = a.mir
        else:
            tmp = tempfile.mkdtemp(prefix='goko-mir-')
            r = subprocess.run([os.path.join(HERE, 'tools', 'mkmir.sh'), tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                sys.stderr.write('cannot build /repo:\n')
                try:
                    sys.stderr.write(open(os.path.join(tmp, 'cargo.log')).read()[-3000:])
                except OSError:
                    pass
                return 2
            mirdir = os.path.join(tmp, 'mir')
        import load
        import rules
        eng, errs = load.load(mirdir, os.environ.get('VERIF_REPO', '/repo'))
        import sem
        props = sorted(rules.PROPS) if a.prop == 'all' else [a.prop]
        rc = 0
        for p in props:
            rc = max(rc, run_prop(p, a, eng, errs, rules, t0))
            if len(props) > 1:
                t0 = time.time()
        return rc
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)


def run_prop(pid, a, eng, errs, rules, t0):
    import rulelib
    ctx = rulelib.Ctx(eng, pid, a.tier)
    missing = []
    for fn in rules.PROPS[pid]:
        try:
            fn(ctx)
        except rulelib.Missing as m:
            missing.append(str(m))
            ctx.notes.append('undecided %s: the code this rule is anchored to is gone: %s' % (fn.__name__, m))
        except Exception:
            ctx.notes.append('undecided %s: %s' % (fn.__name__, traceback.format_exc(limit=4)))
            if a.v or a.prop == 'all':
                traceback.print_exc()
    # a renamed or removed item leaves its rule undecided; a property none of whose anchors is found fails closed
    if missing and (not ctx.obs or len(missing) * 2 > len(rules.PROPS[pid])):
        ctx.ob('anchor', missing[0], False, '', 'the code this property is anchored to is gone: ' + '; '.join(missing))
    if not ctx.obs:
        ctx.ob('vacuous', 'no obligations', False, '', 'no rule instance found')
    known = {}
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf):
        for x in json.load(open(kf)):
            if x.get('property') == pid and x.get('status') == 'known':
                known[x['key']] = x
    bad, kn = [], []
    for (rule, key, ok, where, detail) in ctx.obs:
        if not ok:
            k = rule + ' | ' + key
            (kn if k in known else bad).append((k, where, detail))
    info = rules.INFO.get(pid, {})
    ev = {
        'property': pid, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': info.get('explanation', '') or ('static analysis of the MIR of goko, pointcloud and serve_goko: ' + (rules.PROPS[pid][0].__doc__ or pid)),
            'functions_analysed': len(ctx.functions), 'events_inspected': ctx.sites,
            'obligations': len(ctx.obs), 'discharged': len([1 for o in ctx.obs if o[2]]),
            'rules': sorted({o[0] for o in ctx.obs}),
            'instances': ['%s | %s' % (o[0], o[1]) for o in ctx.obs][:400],
            'functions': sorted(rulelib.short(f) for f in ctx.functions)[:200],
            'known_findings': len(kn), 'mir_parse_errors': len(errs), 'undecided': ctx.notes,
        },
        'wall_s': round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(os.environ.get('VERIF_EVID') or os.path.join(HERE, 'evidence')), exist_ok=True)
    with open(os.path.join(os.environ.get('VERIF_EVID') or os.path.join(HERE, 'evidence'), pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for n in ctx.notes:
        print('UNDECIDED: ' + n.splitlines()[0][:300])
    for k, where, detail in kn:
        print('KNOWN-FINDING: property=%s %s' % (pid, known[k].get('what', k)))
    print('%s: %d obligations, %d discharged, %d functions, %d events' % (pid, len(ctx.obs), ev['coverage']['discharged'], len(ctx.functions), ctx.sites))
    if a.v:
        for o in ctx.obs:
            print('   ', 'ok ' if o[2] else 'BAD', o[0], '|', o[1])
    if bad:
        rp = os.path.join(os.environ.get('VERIF_EVID') or os.path.join(HERE, 'evidence'), pid + '.violation.txt')
        with open(rp, 'w') as f:
            for k, where, detail in bad:
                f.write('%s\n  at %s\n  %s\n' % (k, where, rulelib.short(detail)))
        for k, where, detail in bad:
            print('  violated: %s\n    at %s\n    %s' % (k, where, rulelib.short(detail)))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    res = [2]

    def go():
        try:
            res[0] = main()
        except SystemExit as e:
            res[0] = e.code
        except Exception:
            traceback.print_exc()
    th = threading.Thread(target=go)
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(res[0] if isinstance(res[0], int) else 2)
