"""Result collection, known findings, evidence and verdicts."""
import os, sys, json, time
from facts import VERIF, REPO, AnalysisBroken


EVID = os.environ.get('VERIF_EVID') or os.path.join(VERIF, 'evidence')


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.obs = []            # obligations: dict(key, ok, loc, rule, msg)
        self._keys = {}
        self.samples = []
        self.stats = {}
        self.floors = []         # (description, measured, minimum)

    def ob(self, key, ok, loc='', rule='', msg=''):
        """one obligation; the same key may be reported for several paths (all must hold)"""
        o = self._keys.get(key)
        if o is None:
            o = dict(key=key, ok=bool(ok), loc=loc, rule=rule, msg=msg if not ok else '')
            self._keys[key] = o
            self.obs.append(o)
        elif not ok and o['ok']:
            o.update(ok=False, loc=loc, rule=rule, msg=msg)
        return ok

    def stat(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def floor(self, what, got, minimum):
        """an analysis that no longer finds its subject is broken, not passing"""
        self.floors.append((what, got, minimum))


def load_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']


def violations(rep):
    known = {f['key'] for f in load_findings() if f['property'] == rep.pid and f.get('status', 'open') == 'open'}
    return [o for o in rep.obs if not o['ok'] and o['key'] not in known]


def finish(rep, prog, tier, seed, t0, meta):
    pid = rep.pid
    known = {f['key']: f for f in load_findings() if f['property'] == pid and f.get('status', 'open') == 'open'}
    bad = [o for o in rep.obs if not o['ok']]
    new = [o for o in bad if o['key'] not in known]
    old = [o for o in bad if o['key'] in known]
    if not new:
        for what, got, minimum in rep.floors:
            if got < minimum:
                raise AnalysisBroken('%s: only %d found, at least %d expected: the anchor of this rule has moved' % (what, got, minimum))
    os.makedirs(EVID, exist_ok=True)
    okobs = [o for o in rep.obs if o['ok']]
    step = max(1, len(okobs) // 12)
    ev = dict(
        property=pid, tier=tier, seed=seed, level=meta['level'],
        coverage=dict(
            explanation=meta['explanation'],
            rule=meta['rule'],
            obligations=len(rep.obs),
            discharged=len(okobs),
            files_analysed=len({f.file for f in prog.funcs}),
            functions_in_program=len(prog.funcs),
            classes_in_program=len(prog.classes),
            instances=rep.stats,
            floors=[dict(what=w, found=g, minimum=m) for w, g, m in rep.floors],
            samples=[('%s  [%s] discharged' % (o['key'], o['rule'])) for o in okobs[::step][:14]] + rep.samples[:8],
            known_findings=[o['key'] for o in old],
            violations=[dict(key=o['key'], at=o['loc'], rule=o['rule'], what=o['msg']) for o in new],
        ),
        assumptions=meta.get('assumptions', []),
        wall_s=round(time.time() - t0, 2),
        violations=len(new),
    )
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
    for o in old:
        print('KNOWN-FINDING: property=%s %s (%s): %s' % (pid, o['key'], o['loc'], o['msg']))
    if new:
        rp = os.path.join(EVID, 'replay_%s.txt' % pid)
        with open(rp, 'w') as f:
            f.write('Property %s is violated. Re-run: cd /verif && python3 check.py %s\n\n' % (pid, pid))
            for o in new:
                f.write('%s\n  at    %s\n  rule  %s\n  what  %s\n\n' % (o['key'], o['loc'], o['rule'], o['msg']))
        for o in new[:25]:
            print('%s: %s: %s [%s]' % (o['loc'], o['key'], o['msg'], o['rule']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('%s: %d obligations, all discharged (%d known findings), %.1fs' % (pid, len(rep.obs), len(old), time.time() - t0))
    return 0
