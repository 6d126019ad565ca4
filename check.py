#!/usr/bin/env python3
"""Decide one property of /repo's current source:  check.py <ID>

exit 0: no violation; exit 1 with a VIOLATION line otherwise.  Nothing of hop is executed."""
import os, sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
import json, resource, threading, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(200000)
threading.stack_size(1 << 29)

from hopsa import facts, report, registry  # noqa: E402
from hopsa.interp import SEEN  # noqa: E402


def known(prop):
    """key -> description of the findings recorded, not repaired, for this property"""
    out = {}
    p = os.path.join(HERE, 'known-findings.txt')
    for l in open(p):
        l = l.strip()
        if l.startswith('finding: property=%s ' % prop):
            rest = l.split(' ', 2)[2]
            k, d = rest.split(' ', 1)
            out[k[len('key='):]] = d
    return out


SECONDS, GIGABYTES = 600, 14     # what an analysis may take; what it has not decided by then stays undecided


def apply_rule(prop, rep, F):
    try:
        registry.RULES[prop][0](F, rep)
    except registry.Missing as e:
        rep.undecided('anchor', 'what the check starts from is not there: %s' % e)
    except Exception as e:      # an analysis that fails has decided nothing
        rep.undecided('internal', 'the analysis failed: %s: %s' % (type(e).__name__, e))
        traceback.print_exc(file=sys.stderr)


def run(prop):
    t0 = time.time()
    doc = registry.RULES[prop][1]
    F = facts.Facts()
    rep = report.Report(prop, F)
    t = threading.Thread(target=apply_rule, args=(prop, rep, F), daemon=True)
    t.start()
    while t.is_alive():
        t.join(1)
        if t.is_alive() and (time.time() - t0 > SECONDS or resource.getrusage(resource.RUSAGE_SELF).ru_maxrss > GIGABYTES << 20):
            rep = rep.settled()
            rep.undecided('budget', 'the analysis was given up after %d s and %d MB' % (time.time() - t0, resource.getrusage(resource.RUSAGE_SELF).ru_maxrss >> 10))
            break
    kf = known(prop)
    viol = {k: m for k, m in rep.viol.items() if k not in kf}
    hit = {k: m for k, m in rep.viol.items() if k in kf}
    edir = os.path.join(HERE, 'evidence')
    os.makedirs(edir, exist_ok=True)
    rp = os.path.join('evidence', prop + '.violations.txt')
    if viol:
        with open(os.path.join(HERE, rp), 'w') as f:
            f.write('rule: %s\n' % doc)
            for k, m in sorted(viol.items()):
                f.write('%s\n    %s\n' % (k, m))
    elif os.path.exists(os.path.join(HERE, rp)):
        os.unlink(os.path.join(HERE, rp))
    fns = sorted(rep.fns | set(tuple(SEEN)))
    ev = {
        'property': prop, 'tier': os.environ.get('VERIF_TIER', 'quick'), 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': 'Rule applied: %s. Decided on the MIR of the current tree (%d crates, %d functions, %d source files hashed to %s) '
                           'without running it; every obligation is stated on a path, call site or construct of that MIR.'
                           % (doc, len(F.crates), len(F.fns), F.nfiles, F.hash),
            'obligations': rep.obl, 'discharged': rep.done, 'known_findings': len(hit), 'undecided': len(rep.und),
            'undecided_why': {k: v[:300] for k, v in sorted(rep.und.items())[:40]},
            'counts': rep.counts, 'functions_analysed': len(fns), 'functions': [str(x) for x in fns[:400]],
            'samples': rep.samples or ['no obligation arose'], 'notes': rep.notes,
        },
        'assumptions': registry.ASSUME + rep.assume,
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    with open(os.path.join(edir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    for k, m in sorted(hit.items()):
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, k, kf[k]))
    for k, m in sorted(rep.und.items())[:20]:
        print('UNDECIDED: property=%s %s: %s' % (prop, k, m[:240]))
    for m in rep.notes:
        print('NOTE: %s' % m)
    for k, m in sorted(viol.items())[:40]:
        print('  %s: %s' % (k, m[:600]))
    print('%s: %d obligations, %d discharged, %d violated, %d known, %d undecided, %.1f s'
          % (prop, rep.obl, rep.done, len(viol), len(hit), len(rep.und), time.time() - t0))
    if viol:
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in registry.RULES:
        print('usage: check.py <%s>' % '|'.join(sorted(registry.RULES)))
        return 2
    return run(sys.argv[1])


rc = []
t = threading.Thread(target=lambda: rc.append(main()))
t.start()
t.join()
sys.stdout.flush()
os._exit(rc[0] if rc else 2)
