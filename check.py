#!/usr/bin/env python3
"""check.py ID [ID...] : decides the properties on the current tree of /repo.
Exit 0: holds. Exit 1 + VIOLATION line: broken. Exit 2: the analysis itself could not be carried out."""
import os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
import facts, report
from rules import registry  # noqa


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('-')]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if ids == ['all']:
        ids = sorted(registry.RULES)
    rc = 0
    scopes = {registry.RULES[i]['scope'] for i in ids}
    scope = 'all' if 'all' in scopes or tier == 'thorough' else 'lib'
    t0 = time.time()
    try:
        prog = facts.load(scope)
        prog_nd = None
        for pid in ids:
            t1 = time.time() if len(ids) > 1 else t0
            r = registry.RULES[pid]
            rep = report.Report(pid)
            try:
                r['run'](prog, rep)
            except facts.AnalysisBroken:
                # what was already found to be wrong may be the reason
                if report.violations(rep):
                    rc = max(rc, report.finish(rep, prog, tier, seed, t1, r))
                    continue
                if len(ids) == 1:
                    raise
                print('%s: ANALYSIS-ERROR: %s' % (pid, sys.exc_info()[1]))
                rc = 2
                continue
            if tier == 'thorough':
                # second configuration: release code paths (DEBUG undefined)
                if prog_nd is None:
                    prog_nd = facts.load(scope, debug=False)
                rep2 = report.Report(pid)
                r['run'](prog_nd, rep2)
                for o in rep2.obs:
                    if not o['ok']:
                        rep.ob(o['key'], False, o['loc'], o['rule'] + ' (release configuration)', o['msg'])
                rep.stats['release_configuration_obligations'] = len(rep2.obs)
            try:
                rc = max(rc, report.finish(rep, prog, tier, seed, t1, r))
            except facts.AnalysisBroken:
                if len(ids) == 1:
                    raise
                print('%s: ANALYSIS-ERROR: %s' % (pid, sys.exc_info()[1]))
                rc = 2
    except facts.AnalysisBroken as e:
        print('ANALYSIS-ERROR: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-ERROR: internal error')
        return 2
    return rc


sys.exit(main())
