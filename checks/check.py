#!/usr/bin/env python3
"""check.py <property id>: decides one property from /repo's current sources.
exit 0: holds (known findings excepted); exit 1: VIOLATION; exit 2: the analysis could not be carried out."""
import importlib, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from facts import VERIF, REPO, Broken

EVID = os.environ.get('QTT_EVID', os.path.join(VERIF, 'evidence'))


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.obligations, self.viol, self.notes, self.assume = [], [], [], []
        self.meta = {}

    def ob(self, name, ok, where='', why='', key=None):
        """one obligation: `name` identifies it, `where` file:line/function"""
        self.obligations.append({'obligation': name, 'where': where, 'ok': bool(ok)})
        if not ok:
            self.viol.append({'obligation': name, 'where': where, 'why': why, 'key': key or name})
        return ok

    def need(self, cond, msg):
        if not cond:
            raise Broken(msg)

    def assumption(self, s):
        if s not in self.assume:
            self.assume.append(s)


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick') if '--thorough' not in sys.argv else 'thorough'
    t0 = time.time()
    ctx = Ctx(pid)
    ctx.tier = tier
    reg = importlib.import_module('registry').CHECKS
    if pid not in reg:
        print('unknown property', pid)
        return 2
    spec = reg[pid]
    try:
        spec['run'](ctx)
        ctx.need(len(ctx.obligations) >= spec.get('min', 1),
                 'only %d obligations generated, at least %d expected: the rule lost its anchors' % (len(ctx.obligations), spec.get('min', 1)))
    except Broken as e:
        if not ctx.viol:
            print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
            return 2
    except Exception:
        print(traceback.format_exc()[-1800:])
        if not ctx.viol:
            print('ANALYSIS-BROKEN property=%s internal error' % pid)
            return 2
    known = json.load(open(os.path.join(VERIF, 'known_findings.json')))
    kf = {k['key']: k for k in known if k['property'] == pid and k.get('status') == 'known'}
    new, old = [], {}
    for v in ctx.viol:
        if v['key'] in kf:
            old.setdefault(v['key'], v)
        else:
            new.append(v)
    for k in old:
        print('KNOWN-FINDING: property=%s %s' % (pid, kf[k]['what']))
    os.makedirs(EVID, exist_ok=True)
    rp = os.path.join(EVID, '%s.replay.json' % pid)
    if new:
        json.dump(new, open(rp, 'w'), indent=1)
        seen = set()
        for v in new:
            t = (v['key'], v['where'])
            if t in seen:
                continue
            seen.add(t)
            print('%s: [%s] %s: %s' % (v['where'], pid, v['obligation'], v['why']))
    elif os.path.exists(rp):
        os.unlink(rp)
    n = len(ctx.obligations)
    ok = sum(1 for o in ctx.obligations if o['ok'])
    samples = {}
    for o in ctx.obligations:
        samples.setdefault(o['obligation'].split(':')[0], []).append(o['where'])
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {'explanation': spec['rule'] + ' Deciding step: static analysis of the type-checked syntax trees of '
                     "/repo's current sources; nothing of the library is executed.",
                     'obligations': n, 'discharged': ok, 'known_findings': len(old), 'new_violations': len(new),
                     'analysed': {k: {'count': len(v), 'sites': sorted(set(v))[:40]} for k, v in samples.items()},
                     **ctx.meta},
        'wall_s': round(time.time() - t0, 2), 'assumptions': ctx.assume + spec.get('assume', []),
        'violations': len(new),
    }
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d known findings, %d violations (%.1fs)' % (pid, n, ok, len(old), len(new), time.time() - t0))
    if new:
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
