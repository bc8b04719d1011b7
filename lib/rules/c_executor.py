"""C17: the executors account for every work item of an iteration."""
from facts import walk, AnalysisBroken
from flow import *
from rules.registry import register
from rules.matrix import short
from rules.c_workers import plain, calls_in
from rules.c_broker import key, paths
from rules.loops import LoopRec, elem_of

PS = 'processingStatus'
FAILED = 'Gem::Courtier::g_processing_exception'


def enums_in(t):
    return frozenset(x[1].split('::')[-1] for x in subterms(t) if x[0] == 'E' and PS in x[1])


def status_fact(t):
    """(item, enumerator) of a comparison of a processing status with an enumerator"""
    if t[0] == 'B' and t[1] == '==':
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if b[0] == 'E' and PS in b[1]:
                a = strip(a)
                if a is not None and a[0] == 'C' and a[1] == 'getProcessingStatus':
                    return key(a[2]), b[1].split('::')[-1]
                if a is not None and a[0] == 'F':
                    return key(a[1]), b[1].split('::')[-1]
    return None


def pair(r):
    """the values a status is made of"""
    while r is not None and r[0] == 'K' and len(r[2]) == 1 and r[2][0] is not None and r[2][0][0] in ('K', 'init'):
        r = r[2][0]
    if r is not None and r[0] == 'init':
        return list(r[1]) if isinstance(r[1], tuple) and r[1] and isinstance(r[1][0], tuple) else list(r[1:])
    if r is not None and r[0] == 'K':
        return list(r[2])
    return None


def plainly(t):
    """comparisons reduced to == and <"""
    if t is not None and t[0] == 'B' and t[1] in ('!=', '>', '<=', '>='):
        o, a, b = t[1:4]
        return {'!=': ('U', '!', ('B', '==', a, b)), '>': ('B', '<', b, a), '<=': ('U', '!', ('B', '<', b, a)), '>=': ('U', '!', ('B', '<', a, b))}[o]
    return t


def nonzero(t, counters):
    """(enumerators counted, polarity) of a test whether there are any items with a status"""
    pol = True
    t = plainly(t)
    while t is not None and t[0] == 'U' and t[1] == '!':
        t = plainly(t[2]); pol = not pol
    if t is None:
        return None
    zero = lambda x: x[0] == 'L' and str(x[2]) in ('0', 'false')
    one = lambda x: x[0] == 'L' and str(x[2]) == '1'

    def cnt(x):
        if any(y[0] == 'C' and y[1] in counters for y in subterms(x)):
            return enums_in(x)
        return None
    if t[0] == 'B' and t[1] in ('==', '<'):
        a, b = t[2], t[3]
        if t[1] == '==' and zero(a) and cnt(b):
            return cnt(b), not pol
        if t[1] == '==' and zero(b) and cnt(a):
            return cnt(a), not pol
        if t[1] == '<' and zero(a) and cnt(b):
            return cnt(b), pol
        if t[1] == '<' and one(b) and cnt(a):
            return cnt(a), not pol
        return None
    c = cnt(t)
    return (c, pol) if c else None


def zero_test(t):
    """(own data member, polarity) of a test whether the member is zero"""
    pol = True
    while t[0] == 'U' and t[1] == '!':
        t = t[2]; pol = not pol
    z = lambda x: x is not None and x[0] == 'L' and str(x[2]) == '0'
    if t[0] == 'B' and t[1] == '==':
        a, b = key(t[2]), key(t[3])
        for x, y in ((a, b), (b, a)):
            if z(y) and x is not None and x[0] == 'F' and x[1] == THIS:
                return x, pol
    if t[0] == 'B' and t[1] == '<' and z(key(t[2])):
        x = key(t[3])
        if x is not None and x[0] == 'F' and x[1] == THIS:
            return x, not pol
    if t[0] == 'F' and t[1] == THIS:
        return t, not pol
    return None


def counted(t):
    """(variable, polarity) of a test whether a counter or the record of submissions is not empty"""
    pol = True
    while t[0] == 'U' and t[1] == '!':
        t = t[2]; pol = not pol
    if t[0] == 'B' and t[1] in ('==', '<'):
        a, b = strip(t[2]), strip(t[3])
        z = lambda x: x[0] == 'L' and str(x[2]) == '0'
        if t[1] == '==' and (z(a) or z(b)):
            x = b if z(a) else a
            pol = not pol
        elif t[1] == '<' and z(a):
            x = b
        else:
            return None
    else:
        x = strip(t)
    x = key(x)
    if x is None:
        return None
    if x[0] == 'V':
        return x[1], pol
    if x[0] == 'F' and x[1] == THIS and 'submitted' in x[2]:
        return None, pol != ('no_' in x[2])
    if x[0] in ('F', 'C') and (x[1] == THIS or x[0] == 'C'):
        return x[2] if x[0] == 'F' else x[1], pol
    return None


def loops_of(f):
    return [x for x in walk(f.body) if x['k'] in ('for', 'forrange', 'while', 'do')]


def reach(prog, hier, f, names, memo=None):
    """does f reach (inside its class hierarchy) a call of one of the names?"""
    memo = {} if memo is None else memo
    if id(f) in memo:
        return memo[id(f)]
    memo[id(f)] = False
    r = False
    for x in walk(f.body):
        if x['k'] != 'call':
            continue
        n = (x.get('f') or {}).get('n')
        if n in names:
            r = True
            break
        for g in byname(prog, hier, n):
            if reach(prog, hier, g, names, memo):
                r = True
                break
        if r:
            break
    memo[id(f)] = r
    return r


def byname(prog, hier, n):
    return [g for h in hier for g in plain(prog, h) if g.n == n] if n else []


def run(prog, rep):
    base = [q for q in prog.classes if short(q) == 'GBaseExecutorT']
    if len(base) != 1:
        raise AnalysisBroken('executor base class not found')
    base = base[0]
    fields = {x['n']: x for x in prog.classes[base].fields}
    sub, cycle = submission(prog, rep, base)
    state, counters = completeness(prog, rep, base)
    expected, guarded, old = lifecycle(prog, rep, base, sub, state, cycle)
    finalization(prog, rep, base, counters, expected, old)
    ders = [q for q in prog.derived_of(base) if prog.classes[q].d.get('mode') != 'inst' or True]
    n = 0
    for q in sorted(set(ders)):
        if not plain(prog, q):
            continue
        n += 1
        derived(prog, rep, base, q, state, expected, guarded)
    rep.floor('executors', n, 2)


def hierarchy(prog, q):
    return [q] + list(prog.bases_of(q))


def submission(prog, rep, base):
    hier = [base]
    cand = [f for f in plain(prog, base) if loops_of(f) and reach(prog, hier, f, {'submit'})]

    def inner(f):
        return not any(g in cand and g is not f for x in walk(f.body) if x['k'] == 'call' for g in byname(prog, hier, (x.get('f') or {}).get('n')))
    cand = [f for f in cand if inner(f)]
    if len(cand) != 1:
        raise AnalysisBroken('%s: the function submitting all work items was not identified (%s)' % (base, [f.n for f in cand]))
    f = cand[0]
    where = '%s::%s' % (short(base), f.n)
    W = ('P', 0, f.params[0]['n'])
    seq = [0]

    def sel(ev, st):
        loc = ev.loc
        if ev.kind == 'call' and ev.name in ('setIterationCounter', 'setCollectionPosition') and ev.args:
            return ('tag', ev.name, key(ev.base), key(ev.args[0]), ev.args[0])
        if ev.kind == 'call' and ev.name == 'determineInitialCycleStartTime':
            return ('start-time',)
        if ev.kind == 'call' and ev.name == 'setResubmissionCounter' and ev.args:
            cycle.add(key(ev.args[0]))
        if ev.kind == 'call' and ev.name == 'submit' and ev.args and (ev.base is None or key(ev.base) == THIS):
            return ('submit', key(ev.args[0]), loc)
        if ev.kind in ('assign', 'decl') and ev.lhs is not None and ev.lhs[0] == 'V':
            r = strip(ev.rhs) if ev.rhs is not None else None
            if ev.kind == 'assign' and ev.op in ('+=', '-=') and r is not None:
                if ev.op == '+=' and r[0] == 'L' and str(r[2]).rstrip('uUlL') == '1':
                    return ('inc', ev.lhs[1], loc, id(ev.node))
                return ('upd', ev.lhs[1], 'by', loc, id(ev.node))
            if ev.kind == 'assign' and r is not None and r[0] == 'B' and r[1] == '+':
                parts = [r[2], r[3]]
                own = [x for x in parts if strip(x)[0] == 'V' and strip(x)[1] == ev.lhs[1]]
                one = [x for x in parts if x[0] == 'L' and str(x[2]) in ('1', 'true')]
                if own and one:
                    return ('inc', ev.lhs[1], loc, id(ev.node))
                if own:
                    return ('upd', ev.lhs[1], 'by', loc, id(ev.node))
            if r is not None and r[0] == 'L' and str(r[2]) == '0':
                return ('zero', ev.lhs[1])
            if ev.kind == 'assign':
                return ('upd', ev.lhs[1], 'other', loc, id(ev.node))
        return None

    def br(t, truth, st):
        s = status_fact(t)
        if s:
            return ('is', s[0], s[1], truth)
        z = zero_test(t)
        if z:
            return ('zero?', z[0], z[1] == truth)
        x = counted(t)
        if x:
            return ('some', x[0], x[1] == truth)
        return None
    cycle = set()
    out, thrown, k = paths(prog, base, f, sel, br)
    again = lambda tr: any(x[0] == 'zero?' and x[1] in cycle and not x[2] for x in tr)
    first = lambda tr: any(x[0] == 'zero?' and x[1] in cycle and x[2] for x in tr)
    bodies = {}
    for node, i, tr in k.loops:
        bodies.setdefault(id(node), (node, set()))[1].add(tuple(tr))
    bodies = {i: b for i, b in bodies.items() if any(x[0] == 'submit' for tr in b[1] for x in tr)}
    if len(bodies) != 1:
        raise AnalysisBroken('%s: loop submitting the items not found' % where)
    lid, (node, trs) = list(bodies.items())[0]
    rep.stat('submission_paths', len(trs))
    incs = set()
    posvars = set()
    for tr in trs:
        for x in tr:
            if x[0] == 'tag' and x[1] == 'setCollectionPosition':
                t = strip(x[4])
                while t is not None and t[0] in ('K', 'C') and t[-1]:
                    t = strip(t[-1][0])
                if t is not None and t[0] == 'V':
                    posvars.add(t[1])
    rep.ob(where + '/position', len(posvars) == 1, f.loc, 'position-recorded', 'the position stored in the work items is not a counter of the loop')
    pv = next(iter(posvars)) if posvars else None
    zeroed = {x[1] for tr, _, _ in out for x in tr if x[0] == 'zero'}
    rep.ob(where + '/position-start', pv in zeroed, f.loc, 'position-recorded', 'the position counter does not start with the first item')
    retvars = set()
    for tr, r, st in out:
        r = strip(r) if r is not None else None
        retvars.add(r[1] if r is not None and r[0] == 'V' else None)
    rep.ob(where + '/result', len(retvars) == 1 and None not in retvars, f.loc, 'submission-count', 'the number of submitted items is not returned on all paths')
    rv = next(iter(retvars)) if retvars else None
    rep.ob(where + '/result-start', rv in zeroed, f.loc, 'submission-count', 'the number of submitted items does not start with zero')
    for tr, r, st in out:
        for i, x in enumerate(tr):
            if x[0] == 'start-time':
                rep.ob(where + '/nothing-submitted', any(y[0] == 'some' and y[2] and y[1] in (rv, None) for y in tr[:i]), f.loc, 'no-wait-for-nothing', 'the executor waits for the start of processing although nothing may have been submitted')
    tol = True
    for tr, ty, st in thrown:
        if any(x[0] == 'is' for x in tr) and not first(tr):
            if not {'EXCEPTION_CAUGHT', 'ERROR_FLAGGED'} <= {x[2] for x in tr if x[0] == 'is' and not x[3]}:
                tol = False
    rep.ob(where + '/failed-earlier', tol, f.loc, 'failed-item-tolerated', 'a work item that failed in an earlier cycle ends the iteration when the remaining items are resubmitted')
    for tr in trs:
        subs = [(i, x) for i, x in enumerate(tr) if x[0] == 'submit']
        do = [x for x in tr if x[0] == 'is' and x[2] == 'DO_PROCESS']
        due = any(x[3] for x in do)
        rep.ob(where + '/due-submitted', not due or len(subs) == 1, f.loc, 'due-items-submitted', 'an item marked for processing is not submitted exactly once')
        rep.ob(where + '/others-not', due or not subs, f.loc, 'due-items-submitted', 'an item which is not marked for processing is submitted')
        if not due:
            known = {x[2] for x in tr if x[0] == 'is' and x[3]}
            rep.ob(where + '/unexpected-status', bool(known) or again(tr), f.loc, 'unexpected-status-reported', 'an item with an unexpected status is silently skipped')
        for i, x in subs:
            item = x[1]
            for what in ('setIterationCounter', 'setCollectionPosition'):
                tg = [(j, y) for j, y in enumerate(tr) if y[0] == 'tag' and y[1] == what]
                ok = bool(tg) and all(j < i and y[2] == item for j, y in tg)
                rep.ob(where + '/' + what, ok, f.loc, 'tagged-before-submission', 'an item is submitted without knowing its iteration or position')
                if what == 'setIterationCounter' and tg:
                    rep.ob(where + '/iteration', tg[-1][1][3] is not None and tg[-1][1][3][0] == 'F' and tg[-1][1][3][1] == THIS, f.loc, 'tagged-before-submission', 'the iteration stored in an item is not the current one')
                    incs.add(tg[-1][1][3][2] if tg[-1][1][3] is not None and tg[-1][1][3][0] == 'F' else None)
            rep.ob(where + '/same-item', all(y[1] == item for y in do), f.loc, 'due-items-submitted', 'the status of a different item decides about the submission')
        np_ = [x for x in tr if x[0] == 'inc' and x[1] == pv]
        bad = [x for x in tr if x[0] == 'upd' and x[1] == pv] + [x for x in tr if x[0] == 'zero' and x[1] == pv]
        rep.ob(where + '/position-step', len(np_) == 1 and not bad, f.loc, 'position-recorded', 'the position counter does not advance by one with each item')
        for i, x in subs:
            rep.ob(where + '/position-before-step', all(tr.index(y) > [j for j, z in enumerate(tr) if z[0] == 'tag' and z[1] == 'setCollectionPosition'][0] for y in np_) if any(z[0] == 'tag' and z[1] == 'setCollectionPosition' for z in tr) else False, f.loc, 'position-recorded', 'the position is stored after the counter was advanced')
        if rv != pv:
            nr = [x for x in tr if x[0] == 'inc' and x[1] == rv]
            bad = [x for x in tr if x[0] in ('upd', 'zero') and x[1] == rv]
            rep.ob(where + '/count-step', len(nr) == len(subs) and not bad, f.loc, 'submission-count', 'the number of submitted items is not advanced by one with each submission')
    return f, cycle


def completeness(prog, rep, base):
    """the function deriving the execution state from the status of the items"""
    counters = {f.n: f for f in plain(prog, base) if any(x['k'] == 'call' and (x.get('f') or {}).get('n') in ('count_if', 'count') for x in walk(f.body)) or (loops_of(f) and len(f.params) == 2 and any(PS in (p.get('t') or '') for p in f.params))}
    for f in counters.values():
        count_function(prog, rep, base, f)
    cand = [f for f in plain(prog, base) if 'executor_status_t' in (f.d.get('ret') or '') and len(f.params) == 1]
    if len(cand) != 1:
        raise AnalysisBroken('%s: function deriving the execution state not identified (%s)' % (base, [f.n for f in cand]))
    f = cand[0]
    where = '%s::%s' % (short(base), f.n)
    W = ('P', 0, f.params[0]['n'])

    def sel(ev, st):
        if ev.kind == 'call' and ev.name in counters:
            return ('count', key(ev.args[0]))
        return None

    def br(t, truth, st):
        r = nonzero(t, counters)
        if r:
            return ('any', r[0], r[1] == truth)
        s = status_fact(t)
        if s:
            return ('is', s[0], s[1], truth)
        return None
    out, thrown, k = paths(prog, base, f, sel, br, no_enter=set(counters))
    fields = [x['n'] for x in prog.classes['Gem::Courtier::executor_status_t'].fields] if 'Gem::Courtier::executor_status_t' in prog.classes else []
    if fields[:2] != ['is_complete', 'has_errors']:
        raise AnalysisBroken('unexpected layout of executor_status_t: %s' % fields)
    ERR = frozenset(['ERROR_FLAGGED', 'EXCEPTION_CAUGHT'])
    decided = 0
    for tr, r, st in out:
        for x in tr:
            if x[0] == 'count':
                rep.ob(where + '/all-items', x[1] == W, f.loc, 'state-from-items', 'other items than those of the iteration are counted')
        vals = pair(r)
        if not vals or len(vals) != 2:
            continue
        anyset = {}
        for x in tr:
            if x[0] == 'any':
                anyset[x[1]] = x[2]
        if not anyset and not any(nonzero(v, counters) for v in vals):
            continue
        decided += 1
        for v, name, es, pol in ((vals[0], 'is_complete', frozenset(['DO_PROCESS']), False), (vals[1], 'has_errors', ERR, True)):
            b = litbool(v)
            if b is None:
                z = nonzero(v, counters)
                ok = z is not None and z[0] == es and z[1] == pol
            else:
                # what is known about the number of such items on this path
                pos = any(es >= e and t for e, t in anyset.items())
                zero = es <= frozenset().union(frozenset(), *[e for e, t in anyset.items() if not t])
                has = True if pos else False if zero else None
                ok = has is not None and (has == pol) == b
            rep.ob(where + '/' + name, ok, f.loc, 'state-from-items', '%s is not derived from exactly the items in the corresponding state' % name)
    rep.floor('paths deriving the execution state', decided, 1)
    return f, counters


def count_function(prog, rep, base, f):
    where = '%s::%s' % (short(base), f.n)
    if len(f.params) != 2:
        return
    W = ('P', 0, f.params[0]['n'])
    S = ('P', 1, f.params[1]['n'])
    lam = [x for x in walk(f.body) if x['k'] == 'lambda']
    if not lam:
        def sel(ev, st):
            if ev.kind == 'assign' and ev.lhs is not None and ev.lhs[0] == 'V' and ev.rhs is not None:
                return ('set', ev.lhs[1], key(ev.rhs), ev.op)
            return None

        def br(t, truth, st):
            if t[0] == 'B' and t[1] == '==' and any(key(x) == S for x in (t[2], t[3])):
                return ('is', truth)
            return None
        k = LoopRec({base}, sel, br)
        out, thrown = Interp(prog, k, base).run(f, ((), ()))
        nodes = {id(n): n for n, i, tr in k.loops}
        for i, n in nodes.items():
            c = k.coverage(n)
            rep.ob(where + '/all-items', c is not None and c[0] == W, f.loc, 'state-from-items', 'not all items of the iteration are counted')
            vid = c[1] if c else None
            for n2, j, tr in k.loops:
                if n2 is n:
                    inc = [x for x in tr if x[0] == 'set' and x[1] != vid]
                    rep.ob(where + '/predicate', ('is', True) in tr if inc else ('is', True) not in tr, f.loc, 'state-from-items', 'items with another status are counted')
        return
    res = []

    class L2(Client):
        max_depth = 4

        def relevant(self, g):
            return False

        def branch(self, t, truth, st, node, func):
            if t[0] == 'B' and t[1] == '==' and any(key(x) == S for x in (t[2], t[3])):
                return st.w(cl=truth)
            return st

        def event(self, ev, st):
            if ev.kind == 'return':
                r = litbool(ev.rhs)
                if r is not None and st.cl is not None:
                    res.append(r == st.cl)
                elif ev.rhs is not None and ev.rhs[0] == 'B' and ev.rhs[1] == '==' and 'getProcessingStatus' in str(ev.rhs):
                    res.append(any(key(x) == S for x in ev.rhs[2:]))
                elif r is not None:
                    res.append(False)
                for x in subterms(ev.rhs) if ev.rhs is not None else ():
                    if x[0] == 'C' and x[1] in ('count_if', 'count') and len(x[3]) == 3:
                        b, e = key(x[3][0]), key(x[3][1])
                        full = b is not None and e is not None and b[0] == 'C' and e[0] == 'C' and b[1] in ('begin', 'cbegin') and e[1] in ('end', 'cend') and key(b[2]) == W and key(e[2]) == W
                        rep.ob(where + '/all-items', full, f.loc, 'state-from-items', 'not all items of the iteration are counted')
            return None
    Interp(prog, L2(), base).run(f, None)
    rep.ob(where + '/predicate', all(res), f.loc, 'state-from-items', 'items with another status are counted')


def lifecycle(prog, rep, base, sub, state, cycle):
    """the order of the phases of an iteration"""
    hier = [base]
    st_f, counters = state, None
    f = [x for x in plain(prog, base) if x.d.get('acc') in ('public', None) and reach(prog, hier, x, {sub.n})]
    if len(f) != 1:
        raise AnalysisBroken('%s: entry function of an iteration not identified' % base)
    f = f[0]
    where = '%s::%s' % (short(base), f.n)
    W = ('P', 0, f.params[0]['n'])
    RES = ('P', 1, f.params[1]['n'])
    fields = {x['n'] for x in prog.classes[base].fields}
    PH = ('iterationInit_', 'cycleInit_', sub.n, 'waitForReturn', 'cycleFinalize_', 'iterationFinalize_')
    itcounter = None
    # the counter the items are tagged with
    for g in [sub] + [h for h in plain(prog, base)]:
        for x in walk(g.body):
            if x['k'] == 'call' and (x.get('f') or {}).get('n') == 'setIterationCounter' and x['a']:
                for y in walk(x['a'][0]):
                    if y['k'] == 'member' and y['n'] in fields:
                        itcounter = y['n']
    if itcounter is None:
        raise AnalysisBroken('%s: iteration counter not identified' % base)
    IT = ('F', THIS, itcounter)
    expected = set()

    def sel(ev, st):
        if ev.kind == 'call' and ev.name == 'waitForReturn':
            if len(ev.args) > 1:
                old.add(key(ev.args[1]))
            return ('phase', 'waitForReturn', key(ev.args[0]), 'blocking')
        if ev.kind == 'assign' and key(ev.lhs) in cycle:
            r = strip(ev.rhs) if ev.rhs is not None else None
            if r is not None and r[0] == 'L' and str(r[2]) == '0':
                return ('cyc', 'zero')
            return ('cyc', 'step', id(ev.node))
        if ev.kind in ('call', 'enter') and ev.name in PH and (ev.base is None or key(ev.base) == THIS):
            if ev.kind == 'call' or True:
                return ('phase', ev.name, key(ev.args[0]) if ev.args else None)
        if ev.kind == 'call' and ev.name == st_f.n:
            return ('phase', 'waitForReturn', key(ev.args[0]) if ev.args else None)
        if ev.kind == 'assign' and key(ev.lhs) == IT:
            r = strip(ev.rhs)
            if ev.op == '+=':
                return ('next', id(ev.node)) if r is not None and r[0] == 'L' and str(r[2]).rstrip('uUlL') == '1' else ('counter', key(ev.rhs))
            if r is not None and r[0] == 'B' and r[1] == '+' and IT in (key(r[2]), key(r[3])):
                return ('next', id(ev.node))
            return ('counter', key(ev.rhs))
        if ev.kind == 'assign' and ev.lhs is not None and key(ev.lhs) is not None and key(ev.lhs)[0] == 'F' and key(ev.lhs)[1] == THIS:
            if ev.rhs is not None and any(x[0] == 'C' and x[1] == sub.n for x in subterms(ev.rhs)):
                return ('expected', key(ev.lhs)[2])
        if ev.kind == 'assign' and ev.lhs is not None and ev.lhs[0] == 'F' and ev.lhs[2] in ('is_complete', 'has_errors'):
            return ('flag', ev.lhs[2], litbool(ev.rhs), ev.rhs)
        if ev.kind == 'lock' or ev.kind == 'call' and ev.name == 'try_lock':
            return ('lock',)
        return None

    def br(t, truth, st):
        if t[0] == 'C' and t[1] in ('try_lock', 'owns_lock') or t[0] == 'U' and 'lock' in str(t)[:60]:
            return ('locked', truth)
        if t[0] == 'F' and t[2] in ('is_complete', 'has_errors'):
            src = 'wait' if any(x[0] == 'C' and x[1] in ('waitForReturn', st_f.n) for x in subterms(t)) else 'own'
            return ('test', t[2], truth, src)
        if t == RES:
            return ('resubmit', truth)
        c = counted(t)
        if c:
            return ('some', c[0], c[1] == truth)
        if t[0] == 'B' and t[1] == '<' and IT in (key(t[2]), key(t[3])):
            return ('order', key(t[3]) == IT, truth)
        if t[0] == 'B' and t[1] in ('<', '==') and any(x[0] == 'F' and x[1] == THIS and x not in cycle for x in subterms(t)) and any(x in cycle for x in subterms(t)):
            return ('limit',)
        return None
    old = set()
    out, thrown, k = paths(prog, base, f, sel, br, no_enter=set(PH) | {st_f.n})
    rep.stat('iteration_paths', len(out))
    cyc = ['cycleInit_', sub.n, 'waitForReturn', 'cycleFinalize_']
    cycles = set()
    unguarded = set()
    for node, i, tr in k.loops:
        body = [x[1] for x in tr if x[0] == 'phase']
        if not body:
            continue
        cycles.add(id(node))
        rep.ob(where + '/cycle', body == cyc, f.loc, 'phase-order', 'the phases of a cycle are not run in order: %s' % body)
        rep.ob(where + '/items', all(x[2] == W for x in tr if x[0] == 'phase'), f.loc, 'phase-order', 'a phase is run on other items than those handed over')
        ex = [x for x in tr if x[0] == 'expected']
        i = [j for j, x in enumerate(tr) if x[0] == 'expected']
        w = [j for j, x in enumerate(tr) if x[:2] == ('phase', 'waitForReturn')]
        rep.ob(where + '/expected', bool(i) and bool(w) and max(i) < min(w), f.loc, 'submission-count', 'the number of submitted items is not recorded before waiting for them')
        expected |= {x[1] for x in ex}
        for j, x in enumerate(tr):
            if x[-1] == 'blocking':
                unguarded.add(any(y[0] == 'some' and y[2] and y[1] in (sub.n, None) + tuple(expected) for y in tr[:j]))
    for node, tr in k.again:
        if not any(x[0] == 'phase' for x in tr):
            continue
        rep.ob(where + '/again', ('resubmit', True) in tr and not any(x == ('test', 'is_complete', True, 'own') for x in tr), f.loc, 'resubmission-on-request', 'unprocessed items are resubmitted although this was not asked for or nothing is missing')
        if cycle and all(x is not None and x[0] == 'F' for x in cycle):
            rep.ob(where + '/bounded', len([x for x in tr if x[0] == 'cyc']) == 1 and any(x == ('limit',) for x in tr), f.loc, 'resubmission-on-request', 'resubmissions are not counted, or not limited')
    for tr, r, st in out:
        ph = [x[1] for x in tr if x[0] == 'phase' or x[0] == 'body' and x[1] in cycles]
        ok = len(ph) >= 3 and ph[0] == 'iterationInit_' and ph[-1] == 'iterationFinalize_' and ph.count('iterationInit_') == 1 and ph.count('iterationFinalize_') == 1
        if cycle and all(x is not None and x[0] == 'F' for x in cycle):
            z = [i for i, x in enumerate(tr) if x == ('cyc', 'zero')]
            c = [i for i, x in enumerate(tr) if x[0] == 'phase' and x[1] == sub.n or x[0] == 'body' and x[1] in cycles]
            rep.ob(where + '/cycles-from-zero', bool(z) and bool(c) and min(z) < min(c), f.loc, 'resubmission-on-request', 'the number of resubmissions is not reset when an iteration starts')
        body = [x for x in ph[1:-1] if x not in cycles]
        ok = ok and len(body) % 4 == 0 and all(body[i:i + 4] == cyc for i in range(0, len(body), 4))
        rep.ob(where + '/phases', ok, f.loc, 'phase-order', 'the phases of an iteration are not run in order: %s' % ph)
        rep.ob(where + '/items', all(x[2] == W for x in tr if x[0] == 'phase'), f.loc, 'phase-order', 'a phase is run on other items than those handed over')
        rep.ob(where + '/counter', len([x for x in tr if x[0] == 'next']) == 1 and tr.index([x for x in tr if x[0] == 'next'][0]) > max([i for i, x in enumerate(tr) if x[0] == 'phase'] or [0]), f.loc, 'iteration-counter', 'the iteration counter is not advanced exactly once after the iteration')
        rep.ob(where + '/exclusive', any(x[0] == 'lock' for x in tr), f.loc, 'one-iteration-at-a-time', 'concurrent iterations on the same executor are not detected')
        # an externally supplied counter never goes back and is in place before the iteration starts
        ext = [i for i, x in enumerate(tr) if x[0] == 'counter']
        first = min([i for i, x in enumerate(tr) if x[0] == 'phase'] or [len(tr)])
        for i in ext:
            chk = [x for x in tr[:i] if x[0] == 'order' and not x[2]]
            rep.ob(where + '/external', i < first and any(x[1] for x in chk), f.loc, 'iteration-counter', 'an externally supplied iteration counter may go back or is set while the iteration is running')
    # all completed or left cycles
    nb = 0
    seen = [tr for n, i, tr in k.loops if any(x[0] == 'phase' for x in tr)] + [tr for tr, _, _ in out]
    for tr in seen:
        if not any(x[0] == 'phase' and x[1] == 'waitForReturn' for x in tr):
            continue
        nb += 1
        tests = [x for x in tr if x[0] == 'test' and x[3] == 'wait']
        flags = [x for x in tr if x[0] == 'flag']
        for name in ('is_complete', 'has_errors'):
            t = [x[2] for x in tests if x[1] == name]
            w = [x for x in flags if x[1] == name]
            if w:
                good = all(x[2] is True and True in t or x[2] is None and any(y[0] == 'C' and y[1] in ('waitForReturn', st_f.n) for y in subterms(x[3])) for x in w)
                rep.ob(where + '/result-' + name, good, f.loc, 'state-reported', '%s is reported although the items do not show it' % name)
            elif True in t:
                rep.ob(where + '/result-' + name, False, f.loc, 'state-reported', '%s is not reported although the items show it' % name)
    rep.floor('cycles analysed', nb, 1)
    rep.ob(where + '/expected-field', len(expected) == 1, f.loc, 'submission-count', 'the number of submitted items is not recorded in one place: %s' % sorted(expected))
    old = {x for x in old if x is not None and x[0] == 'F' and x[1] == THIS}
    g = [x for x in plain(prog, base) if x.n == 'iterationInit_']
    if old and len(g) == 1:
        def sel2(ev, st):
            if ev.kind == 'call' and ev.name in ('clear', 'erase', 'swap', 'resize') and key(ev.base) in old or ev.kind == 'assign' and key(ev.lhs) in old:
                return ('fresh',)
            return None
        for tr, r, st in paths(prog, base, g[0], sel2)[0]:
            rep.ob('%s::%s/old-items' % (short(base), g[0].n), ('fresh',) in tr, g[0].loc, 'late-item-kept', 'old items of an earlier iteration are reported again')
    return expected, False not in unguarded, old


def finalization(prog, rep, base, counters, expected, old):
    """what is reported about the iteration once it is over"""
    fs = [f for f in plain(prog, base) if f.n == 'iterationFinalize_']
    if len(fs) != 1:
        raise AnalysisBroken('%s: finalization of an iteration not found' % base)
    f = fs[0]
    where = '%s::%s' % (short(base), f.n)
    W = ('P', 0, f.params[0]['n'])
    olds = [x['n'] for x in prog.classes[base].fields if 'vector' in (x.get('ct') or x['t'])]
    # comparisons handed to std::sort are strict
    n = 0
    for g in plain(prog, base):
        for x in walk(g.body):
            if x['k'] == 'call' and (x.get('f') or {}).get('n') in ('sort', 'stable_sort'):
                n += 1
                ls = [y for a in x['a'] if a for y in walk(a) if y['k'] == 'lambda']
                bad = [y for l in ls for r in walk(l['b']) if r['k'] == 'return' for y in walk(r) if y['k'] == 'bin' and y['op'] in ('<=', '>=')]
                rep.ob('%s::%s/sort#%d' % (short(base), g.n, n), not bad, g.loc, 'strict-order', 'the order used for sorting is not strict')
    # ... and duplicates are those items the order calls equal
    for g in plain(prog, base):
        ks = {}
        for x in walk(g.body):
            if x['k'] == 'call' and (x.get('f') or {}).get('n') in ('sort', 'stable_sort', 'unique'):
                ls = [y for a in x['a'] if a for y in walk(a) if y['k'] == 'lambda']
                ks.setdefault('unique' if x['f']['n'] == 'unique' else 'sort', []).extend(frozenset((c.get('f') or {}).get('n') for c in walk(l['b']) if c['k'] == 'call' and (c.get('f') or {}).get('n') not in ('get', 'operator->', 'operator*')) for l in ls)
        for u in ks.get('unique', []):
            rep.ob('%s::%s/duplicates' % (short(base), g.n), u in ks.get('sort', []), g.loc, 'late-item-kept', 'items are taken for duplicates by something they were not sorted by')
    cleaners = cleaning(prog, rep, base)

    def sel(ev, st):
        if ev.kind in ('call', 'enter') and ev.name in cleaners and len(ev.args) > 1:
            return ('clean', key(ev.args[0]), enums_in(ev.args[1]))
        if ev.kind == 'assign' and key(ev.lhs) is not None and key(ev.lhs)[0] == 'F' and key(ev.lhs)[1] == THIS:
            r = strip(ev.rhs) if ev.rhs is not None else None
            if r is not None and r[0] == 'B' and r[1] == '-' or ev.op == '-=':
                a, b = (ev.lhs, ev.rhs) if ev.op == '-=' else (r[2], r[3])
                return ('diff', key(ev.lhs)[2], key(a), key(b), frozenset(enums_in(b)))
            e = [y for y in subterms(ev.rhs) if y[0] == 'C' and y[1] in counters]
            if e:
                return ('n', key(ev.lhs)[2], frozenset(enums_in(ev.rhs)), tuple(sorted({key(y[3][0]) for y in e}, key=str)), ev.op == '+=' or any(key(y) == key(ev.lhs) for y in subterms(ev.rhs)))
            return ('set', key(ev.lhs)[2], ev.rhs)
        return None
    out, thrown, k = paths(prog, base, f, sel, None, no_enter=set(counters) | cleaners)
    for tr, r, st in out:
        if old and cleaners:
            c = [x for x in tr if x[0] == 'clean']
            rep.ob(where + '/old-cleaned', any(x[1] in old and x[2] == frozenset(['PROCESSED']) for x in c) and all(x[2] == frozenset(['PROCESSED']) for x in c if x[1] in old), f.loc, 'late-item-kept', 'not exactly the processed ones among the old items are kept')
        cur = {}
        for x in tr:
            if x[0] == 'n':
                if x[4] and x[1] in cur:
                    cur[x[1]] = (cur[x[1]][0] | x[2], tuple(sorted(set(cur[x[1]][1]) | set(x[3]), key=str)))
                else:
                    cur[x[1]] = (x[2], x[3])
        for e, what in ((frozenset(['DO_PROCESS']), 'missing'), (frozenset(['ERROR_FLAGGED', 'EXCEPTION_CAUGHT']), 'erroneous')):
            hit = [n for n, v in cur.items() if v[0] == e and v[1] == (W,)]
            for x in tr:
                if what == 'missing' and x[0] == 'diff' and (x[4] == e or x[3] is not None and x[3][0] == 'F' and x[3][2] in hit):
                    rep.ob(where + '/returned', x[2] is not None and x[2][0] == 'F' and x[2][2] in expected, f.loc, 'iteration-counts', 'the number of returned items is not the number of submitted items without the missing ones')
            rep.ob(where + '/' + what, len(hit) >= 1, f.loc, 'iteration-counts', 'the number of %s items is not determined from the items of the iteration' % what)


def cleaning(prog, rep, base):
    """functions removing all items without a given status"""
    names = set()
    for f in plain(prog, base):
        if len(f.params) != 2 or PS not in (f.params[1].get('t') or '') or not any(x['k'] == 'call' and (x.get('f') or {}).get('n') in ('erase_if', 'remove_if') for x in walk(f.body)):
            continue
        names.add(f.n)
        S = ('P', 1, f.params[1]['n'])
        res = []

        class L(Client):
            max_depth = 6

            def relevant(self, g):
                return g.n in ('erase_if', 'remove_if')

            def branch(self, t, truth, st, node, func):
                if t[0] == 'B' and t[1] == '==' and any(key(x) == S for x in (t[2], t[3])):
                    return st.w(cl=truth)
                return st

            def event(self, ev, st):
                if ev.kind == 'return' and ev.rhs is not None:
                    r = litbool(ev.rhs)
                    if r is not None and st.cl is not None:
                        res.append(r != st.cl)
                return None
        Interp(prog, L(), base).run(f, None)
        rep.ob('%s::%s/predicate' % (short(base), f.n), all(res), f.loc, 'late-item-kept', 'items with the desired status are removed, or others are kept')
    return names


def derived(prog, rep, base, q, state, expected, guarded):
    tag = short(q)
    hier = hierarchy(prog, q)
    # phases overridden in derived classes run those of the parent class: init first, finalization last
    for f in plain(prog, q):
        if f.n in ('init_', 'finalize_', 'iterationInit_', 'iterationFinalize_', 'cycleInit_', 'cycleFinalize_'):
            own = [b for b in prog.bases_of(q) if byname(prog, [b], f.n)]
            if not own:
                continue
            cs = [x for x in class_nodes(prog, f) if x['k'] == 'call' and (x.get('f') or {}).get('n') == f.n]
            rep.ob('%s::%s/parent' % (tag, f.n), bool(cs), f.loc, 'parent-phase-run', 'the corresponding function of the parent class is not called')
    ws = [f for f in plain(prog, q) if f.n == 'waitForReturn']
    for f in ws:
        wait(prog, rep, q, f, state, expected, guarded)
    ss = [f for f in plain(prog, q) if f.n == 'submit']
    for f in ss:
        submit(prog, rep, q, f)
    for f in plain(prog, q):
        if 'executor_status_t' in (f.d.get('ret') or '') and len(f.params) == 3:
            sort_in(prog, rep, q, f, expected)


def submit(prog, rep, q, f):
    """every item is processed, scheduled or queued exactly once"""
    where = '%s::%s' % (short(q), f.n)
    W = ('P', 0, f.params[0]['n'])
    loc = f.loc

    def sel(ev, st):
        if ev.kind == 'call' and ev.name == 'process' and key(ev.base) == W:
            return ('do', 'process', id(ev.node))
        if ev.kind == 'call' and ev.name in ('async_schedule', 'push_raw', 'schedule'):
            if ev.name == 'push_raw':
                return ('do', ev.name, id(ev.node), key(ev.args[0]) == W)
            lam = [x for a in ev.node['a'] if a for x in walk(a) if x['k'] == 'lambda']
            return ('do', ev.name, id(ev.node), any((c.get('f') or {}).get('n') == 'process' for l in lam for c in walk(l['b']) if c['k'] == 'call'))
        if ev.kind == 'call' and ev.name == 'setBufferId' and key(ev.base) == W:
            return ('id', key(ev.args[0]))
        if ev.kind == 'call' and ev.name in ('push_back', 'emplace_back') and ev.base is not None and key(ev.base) is not None and key(ev.base)[0] == 'F' and key(ev.base)[2] in hold:
            return ('held', any(x[0] == 'C' and x[1] in ('async_schedule', 'schedule') for a in ev.args for x in subterms(a)))
        return None
    hold = [x['n'] for x in prog.classes[q].fields if 'future' in (x.get('ct') or x['t'])]

    def thr(ev):
        return (FAILED,) if ev.name == 'process' and key(ev.base) == W else ()
    out, thrown, k = paths(prog, q, f, sel, None, thr)
    for tr, ty, st in thrown:
        if tr and tr[-1][:2] == ('do', 'process') and ty == FAILED:
            rep.ob(where + '/failed-item', False, f.loc, 'failed-item-tolerated', 'a failed work item ends the iteration')
    rep.ob(where + '/failed-item', True, f.loc, 'failed-item-tolerated')
    for tr, r, st in out:
        for i, x in enumerate(tr):
            if x[0] == 'do' and hold and x[1] != 'process':
                rep.ob(where + '/awaitable', ('held', True) in tr[i:], f.loc, 'all-awaited', 'the executor keeps nothing by which it could await a submitted item')
        d = [x for x in tr if x[0] == 'do']
        rep.ob(where + '/once', len(d) == 1 and (len(d[0]) < 4 or d[0][3]), loc, 'submitted-once', 'a path submits the item not at all or several times')
        if d and d[0][1] == 'push_raw':
            i = tr.index(d[0])
            rep.ob(where + '/port', any(x[0] == 'id' for x in tr[:i]), loc, 'own-port-recorded', 'the item is queued before the id of its port is stored in it')
    rep.floor('paths of ' + where, len(out), 1)


def wait(prog, rep, q, f, state, expected, guarded):
    where = '%s::%s' % (short(q), f.n)
    W = ('P', 0, f.params[0]['n'])
    hier = set(hierarchy(prog, q))
    adders = {g.n for g in plain(prog, q) if 'executor_status_t' in (g.d.get('ret') or '') and len(g.params) == 3}
    counts = set()
    for g in plain(prog, q):
        if g.n in adders:
            for x in walk(g.body):
                if x['k'] == 'un' and x['op'] == '++' and x['s']['k'] == 'member':
                    counts.add(x['s']['n'])
                if x['k'] == 'bin' and x['op'] == '+=' and x['a']['k'] == 'member':
                    counts.add(x['a']['n'])

    def sel(ev, st):
        if ev.kind == 'call' and ev.name == 'pop_processed':
            popped.add(key(ev.args[0]))
            return ('pop', id(ev.node), key(ev.args[0]), len(ev.args) > 1)
        if ev.kind in ('call', 'enter') and ev.name in adders:
            return ('add', key(ev.args[0]), tuple(key(a) for a in ev.args[1:]))
        if ev.kind == 'assign' and key(ev.lhs) is not None and key(ev.lhs)[0] == 'F' and key(ev.lhs)[1] == THIS and key(ev.lhs)[2] in counts:
            r = strip(ev.rhs) if ev.rhs is not None else None
            return ('reset', key(ev.lhs)[2]) if r is not None and r[0] == 'L' and str(r[2]) == '0' else None
        if ev.kind == 'call' and ev.name == 'get' and not ev.args and ev.base is not None and key(ev.base) is not None and key(ev.base)[0] in ('elem', 'X'):
            return ('future', key(ev.base)[1])
        if ev.kind == 'call' and ev.name == state.n:
            return ('state', key(ev.args[0]))
        return None

    def br(t, truth, st):
        if t[0] == 'F' and t[2] == 'is_complete':
            return ('complete', truth)
        if t[0] == 'C' and t[1] == 'is_processed':
            return ('processed', truth)
        if t[0] == 'B' and t[1] == '<':
            a, b = key(t[2]), key(t[3])
            if b is not None and b[0] == 'F' and b[2] in factor and a is not None and a[0] == 'L':
                return ('factor', truth)
        c = counted(t)
        if c and c[0] in (None,) + tuple(expected):
            return ('some', c[0], c[1] == truth)
        if any(x[0] == 'C' and x[1] in ('now', 'remainingTime') for x in subterms(t)):
            return ('time', truth)
        if any(x[0] == 'F' and x[1] == THIS and x[2] in counts for x in subterms(t)):
            return ('rate', truth)
        if t in popped or key(t) in popped:
            return ('valid', key(t), truth)
        return None
    popped = set()
    factor = {x['n'] for x in prog.classes[q].fields if 'aitFactor' in x['n'] and x['t'] != 'bool'}
    out, thrown, k = paths(prog, q, f, sel, br, lambda ev: (FAILED,) if ev.name == 'get' and sel(ev, None) is not None else (), no_enter=adders | {state.n})
    blocking = {id(n) for n, i, tr in k.loops if any(x[0] == 'pop' for x in tr)}
    timed = {id(n) for n, i, tr in k.loops if any(x[0] == 'pop' and x[3] for x in tr)}
    for tr, r, st in out:
        b = [i for i, x in enumerate(tr) if x[0] == 'body' and x[1] in blocking or x[0] == 'pop']
        if b:
            rep.ob(where + '/nothing-submitted', guarded or any(x[0] == 'some' and x[2] for x in tr[:b[0]]), f.loc, 'no-wait-for-nothing', 'the executor waits for returning items although nothing may have been submitted')
        b = [i for i, x in enumerate(tr) if x[0] == 'body' and x[1] in timed]
        if b and factor:
            rep.ob(where + '/no-timeout', ('factor', True) in tr[:b[0]], f.loc, 'no-timeout-on-request', 'items are dropped after a timeout although the wait factor (<= 0) asks for no timeout')
    late = {id(n) for n, tr in k.exits if any(x[0] == 'time' for x in tr)}
    for tr, r, st in out:
        b = [i for i, x in enumerate(tr) if x[0] == 'body' and x[1] in late]
        if b and factor:
            rep.ob(where + '/no-timeout', ('factor', True) in tr[:b[0]], f.loc, 'no-timeout-on-request', 'items are dropped after a timeout although the wait factor (<= 0) asks for no timeout')
    percentage(prog, rep, q, counts, expected)
    for tr, r, st in out:
        ok = r is not None and any(x[0] == 'C' and x[1] == state.n for x in subterms(r)) and ('state', W) in tr
        rep.ob(where + '/state', ok, f.loc, 'state-from-items', 'a path does not derive the reported state from the items')
    rep.floor('paths of ' + where, len(out), 1)
    # futures of the items submitted to a thread pool are all waited for
    hold = [x['n'] for x in prog.classes[q].fields if 'future' in (x.get('ct') or x['t'])]
    for h in hold:
        H = ('F', THIS, h)
        got = [x for n, i, tr in k.loops for x in tr if x == ('future', H)]
        rep.ob(where + '/all-futures', bool(got), f.loc, 'all-awaited', 'the results of the submitted items are not awaited')
        floops = {id(n) for n, i, tr in k.loops if ('future', H) in tr}
        for n, i, tr in k.loops:
            if id(n) in floops:
                rep.ob(where + '/each-future', ('future', H) in tr, f.loc, 'all-awaited', 'a result is not awaited')
        for n, tr in k.broke:
            if id(n) in floops:
                rep.ob(where + '/each-future', False, f.loc, 'all-awaited', 'the remaining results are not awaited')
        for tr, r, st in out:
            rep.ob(where + '/loop-run', any(x[0] in ('body', 'left') and x[1] in floops for x in tr) or any(x[0] == 'future' for x in tr), f.loc, 'all-awaited', 'a path reports the state without waiting for the results')
        tolerant(prog, rep, q, f, where, hold)
        # ... and those of an earlier cycle are forgotten
        clr = [g for g in plain(prog, q) if g.n in ('cycleInit_', f.n) for x in walk(g.body) if x['k'] == 'call' and (x.get('f') or {}).get('n') == 'clear']
        rep.ob('%s/futures-fresh' % short(q), bool(clr), f.loc, 'all-awaited', 'results of an earlier cycle are awaited again')
    if adders:
        n = 0
        for node, i, tr in k.loops + [(None, 0, t) for t, _, _ in out]:
            pops = [(j, x) for j, x in enumerate(tr) if x[0] == 'pop']
            for j, x in pops:
                n += 1
                nxt = [y for y in tr[j + 1:] if y[0] in ('add', 'pop')]
                # an item retrieved in an inner loop is handed on by the surrounding one
                known = [y for y in tr[j + 1:] if y[0] == 'processed']
                if nxt:
                    rep.ob(where + '/recorded', nxt[0][0] == 'add', f.loc, 'returned-item-recorded', 'a returned item is not recorded')
                elif node is not None and known and not known[-1][1] and len(tr) <= j + 2 + len(known):
                    rep.ob(where + '/first-item-recorded', False, f.loc, 'returned-item-recorded', 'an item returned with an error as the very first one is dropped and a further one is awaited, which may never arrive')
        rep.floor('retrievals in ' + where, n, 1)
        for tr, r, st in out:
            for x in tr:
                if x[0] == 'add':
                    rep.ob(where + '/add-args', x[2][:1] == (W,), f.loc, 'returned-item-recorded', 'a returned item is recorded among other items than those of the iteration')
        outer = {id(n) for n, i, tr in k.loops if any(x[0] == 'add' for x in tr)}
        for node, i, tr in k.loops:
            if id(node) not in outer:
                continue
            p = [j for j, x in enumerate(tr) if x[0] == 'pop']
            inner = [j for j, x in enumerate(tr) if x[0] == 'body' and x[1] in blocking]
            if not p and not inner:
                continue
            last = max(p + inner)
            v = [x for x in tr[last:] if x[0] == 'valid']
            rep.ob(where + '/handed-on', any(x[0] == 'add' for x in tr[last:]) or bool(v) and not any(x[2] for x in v), f.loc, 'returned-item-recorded', 'a returned item is not recorded')
        for node, tr in k.exits:
            if id(node) in outer:
                last = max([j for j, x in enumerate(tr) if x[0] in ('add', 'complete', 'valid')] or [0])
                rep.ob(where + '/leaves', ('complete', True) in tr or any(x[0] in ('time', 'rate') for x in tr[last:]), f.loc, 'wait-ends', 'the executor stops waiting although items are missing')
        for node, tr in k.again:
            if ('complete', True) in tr:
                rep.ob(where + '/stops', False, f.loc, 'wait-ends', 'the executor keeps waiting although all items have returned')
        for o in outer:
            rep.ob(where + '/stops', any(('complete', True) in tr for n, _, tr in k.loops if id(n) == o), f.loc, 'wait-ends', 'the executor keeps waiting although all items have returned')
        ini = [g for g in plain(prog, q) if g.n == 'cycleInit_']
        for c in counts:
            before = [all(any(x == ('reset', c) for x in tr[:next(i for i, x in enumerate(tr) if x[0] == 'body' and x[1] in outer)]) for tr, _, _ in out if any(x[0] == 'body' and x[1] in outer for x in tr))]
            for g in ini:
                o2 = paths(prog, q, g, sel, br)[0]
                before.append(all(('reset', c) in tr for tr, _, _ in o2))
            rep.ob(where + '/counted-from-zero', any(before), f.loc, 'returned-item-counted', 'the number of returned items does not start with zero in a cycle')


def percentage(prog, rep, q, counts, expected):
    """the decision table of the test whether enough items have returned"""
    def pct(t):
        t = key(t)
        return t is not None and t[0] == 'F' and t[1] == THIS and 'ercentage' in t[2]
    for f in plain(prog, q):
        if f.params or f.d.get('ret') != 'bool':
            continue
        conds = []

        class L(Client):
            max_depth = 5

            def relevant(self, g):
                return g.cls == q or g.cls in prog.bases_of(q)

            def branch(self, t, truth, st, node, func):
                return st.w(cl=st.cl + ((t, truth),))
        if not any(x['k'] == 'member' and 'ercentage' in x['n'] or x['k'] == 'call' and 'ercentage' in ((x.get('f') or {}).get('n') or '') for x in walk(f.body)):
            continue
        out, thrown = Interp(prog, L(), q).run(f, ())
        if not any(pct(x) for st, r in out for t in [r] + [c for c, _ in st.cl] for x in subterms(t)):
            continue
        bad = known = 0
        for e in (1, 3, 8, 200):
            for c in sorted({0, 1, e // 2, e - 1, e}):
                if c > e or c < 0:
                    continue
                for p in (0, 1, 50, 51, 99, 100):
                    val = {}

                    def leaf(t):
                        k = key(t)
                        if pct(k):
                            return p
                        if k is not None and k[0] == 'F' and k[1] == THIS and k[2] in counts:
                            return c
                        if k is not None and k[0] == 'F' and k[1] == THIS and k[2] in expected:
                            return e
                        return None
                    for st, r in out:
                        vs = [(value(t, leaf), truth) for t, truth in st.cl]
                        if any(v is None for v, _ in vs) or any(bool(v) != truth for v, truth in vs):
                            continue
                        v = value(r, leaf)
                        if v is None:
                            continue
                        known += 1
                        if bool(v) != (p != 0 and 100 * c >= p * e):
                            bad += 1
        rep.ob('%s::%s/decision' % (short(q), f.n), known > 0 and not bad, f.loc, 'partial-return', 'enough items are taken to have returned although the requested percentage is not reached or disabled, or the other way round')
        rep.stat('partial_return_cases', known)


def value(t, leaf):
    """value of an arithmetic term under an assignment of its leaves"""
    from fractions import Fraction
    if t is None:
        return None
    v = leaf(t)
    if v is not None:
        return Fraction(v)
    t = key(t)
    v = leaf(t)
    if v is not None:
        return Fraction(v)
    if t[0] == 'L':
        x = str(t[2])
        if x in ('true', 'false'):
            return Fraction(x == 'true')
        try:
            return Fraction(x.rstrip('fFlLuU'))
        except ValueError:
            return None
    if t[0] == 'C' and t[1] == 'numeric_cast' and len(t[3]) == 1:
        return value(t[3][0], leaf)
    if t[0] == 'K' and len(t[2]) == 1:
        return value(t[2][0], leaf)
    if t[0] == 'U':
        x = value(t[2], leaf)
        return None if x is None else Fraction(not x) if t[1] == '!' else -x if t[1] == '-' else None
    if t[0] == 'B':
        a, b = value(t[2], leaf), value(t[3], leaf)
        if a is None or b is None:
            return None
        o = t[1]
        if o == '/':
            return None if b == 0 else a / b
        return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '<': lambda: Fraction(a < b), '>': lambda: Fraction(a > b), '<=': lambda: Fraction(a <= b), '>=': lambda: Fraction(a >= b),
                '==': lambda: Fraction(a == b), '!=': lambda: Fraction(a != b), '&&': lambda: Fraction(bool(a and b)), '||': lambda: Fraction(bool(a or b))}.get(o, lambda: None)()
    return None


def tolerant(prog, rep, q, f, where, hold):
    """a failed item does not end the iteration"""
    def thr(ev):
        b = key(ev.base) if ev.base is not None else None
        return (FAILED,) if ev.name == 'get' and not ev.args and b is not None and b[0] in ('elem', 'X', 'C') else ()

    def sel(ev, st):
        return ('get',) if ev.kind == 'call' and thr(ev) else None
    out, thrown, k = paths(prog, q, f, sel, None, thr)
    rep.ob(where + '/failed-item', not any(ty == FAILED for tr, ty, st in thrown), f.loc, 'failed-item-tolerated', 'a failed work item ends the iteration')


def count_state(t, counts):
    """is the term the number of returned items: 'new' including the item just counted, 'now' as stored"""
    k = key(t)
    if k is not None and k[0] == 'F' and k[1] == THIS and k[2] in counts:
        return 'now'
    if k is not None and k[0] == 'B' and k[1] == '+' and any(key(x) is not None and key(x)[0] == 'F' and key(x)[2] in counts for x in (k[2], k[3])):
        return 'new'
    if k is not None and k[0] == 'U' and k[1] in ('++', 'post++', '++post'):
        return 'old'
    return None


def sort_in(prog, rep, q, f, expected):
    """a returned item takes the place it was submitted from"""
    where = '%s::%s' % (short(q), f.n)
    P = ('P', 0, f.params[0]['n'])
    W = ('P', 1, f.params[1]['n'])
    O = ('P', 2, f.params[2]['n'])

    def slot(t):
        t = key(t)
        if t is None:
            return None
        if t[0] == 'C' and t[1] in ('at', '[]', 'operator[]') and key(t[2]) == W:
            return key(t[3][0])
        if t[0] == 'X':
            if key(t[1]) == W:
                return key(t[2])
        return None
    POS = ('C', 'getCollectionPosition', P, ())

    def ispos(t):
        t = key(t)
        return t is not None and t[0] == 'C' and t[1] == 'getCollectionPosition' and key(t[2]) == P

    def sel(ev, st):
        if ev.kind == 'assign':
            s = slot(ev.lhs)
            if s is not None:
                return ('store', ispos(s), key(ev.rhs) == P)
            l = key(ev.lhs)
            if l is not None and l[0] == 'F' and l[1] == THIS:
                r = strip(ev.rhs)
                if ev.op in ('++', '+=') or r is not None and r[0] == 'B' and r[1] == '+' and l in (key(r[2]), key(r[3])):
                    counts.add(l[2])
                    return ('count', l[2], id(ev.node))
        if ev.kind == 'call' and ev.name in ('push_back', 'emplace_back') and key(ev.base) in (O, W):
            return ('old' if key(ev.base) == O else 'append', key(ev.args[0]) == P)
        if ev.kind == 'call' and ev.name == 'swap' and slot(ev.base) is not None:
            return ('store', ispos(slot(ev.base)), key(ev.args[0]) == P)
        return None

    def br(t, truth, st):
        if t == P or key(t) == P:
            return ('valid', truth)
        if t[0] == 'B' and t[1] == '==':
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if slot(a) is not None and key(b) == P:
                    return ('same', truth, ispos(slot(a)))
                ka = key(a)
                if ka is not None and ka[0] == 'C' and ka[1] == 'getIterationCounter' and key(ka[2]) == P:
                    kb = key(b)
                    return ('current', truth, kb is not None and kb[0] == 'F' and kb[1] == THIS)
            s = status_fact(t)
            if s:
                if s[0] == P:
                    return ('status', s[1], truth)
                sl = slot(s[0])
                if sl is not None:
                    return ('slot', s[1], truth, ispos(sl))
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                n = count_state(a, counts)
                if n:
                    kb = key(b)
                    return ('all', truth, n, kb is not None and kb[0] == 'F' and kb[1] == THIS and kb[2] in expected)
        if t[0] == 'C' and t[1] == 'has_errors':
            return ('err', truth)
        if t[0] == 'C' and t[1] == 'is_processed' and key(t[2]) == P:
            return ('status', 'PROCESSED', truth)
        return None
    counts = set()
    out, thrown, k = paths(prog, q, f, sel, br)
    ok = lambda key_, v, rule, msg: rep.ob(where + '/' + key_, v, f.loc, rule, msg)
    for x in walk(f.body):
        if x['k'] == 'bin' and x['op'] in ('==', '<', '>=', '!=', '>', '<='):
            for y in (x['a'], x['b']):
                if y and y['k'] == 'un' and y['op'] == '++' and y.get('post') and y['s'].get('k') == 'member' and y['s']['n'] in counts:
                    ok('complete-when', False, 'returned-item-counted', 'completeness is not decided by comparing the number of returned items with that of the submitted ones')
    ncur = 0
    for tr, r, st in out:
        d = {}
        for x in tr:
            d.setdefault(x[0], []).append(x)
        valid = ('valid', False) not in tr
        vals = pair(r)
        compl = litbool(vals[0]) if vals else None
        touched = any(x[0] in ('store', 'count', 'old', 'append') for x in tr)
        if not valid:
            ok('empty', not touched and compl is not True, 'returned-item-recorded', 'an empty pointer is recorded as a returned item')
            continue
        cur = d.get('current')
        if not cur:
            ok('iteration', False, 'returned-item-recorded', 'the iteration an item belongs to is not checked')
            continue
        ok('iteration', all(x[2] for x in cur), 'returned-item-recorded', 'the iteration of an item is not compared with the current iteration')
        if cur[-1][1]:
            ncur += 1
            ok('not-old', 'old' not in d and 'append' not in d, 'position-restored', 'an item of the current iteration is filed among the old items')
            same = d.get('same', [])
            pend = [x for x in d.get('slot', []) if x[1] == 'DO_PROCESS']
            is_same = any(x[1] for x in same)
            open_ = any(x[2] for x in pend)
            ok('slot', all(x[2] for x in same) and all(x[3] for x in pend), 'position-restored', 'another position than the one the item was submitted from is inspected')
            if is_same or open_:
                ok('counted', len(d.get('count', [])) == 1, 'returned-item-counted', 'a returned item is not counted exactly once')
                ok('stored', is_same or [x for x in d.get('store', [])] != [] and all(x[1] and x[2] for x in d['store']), 'position-restored', 'a returned item does not take the position it was submitted from')
                al = d.get('all', [])
                a = [x[1] for x in al]
                # the count is compared after the item was added to it
                cnt = tr.index(d['count'][0]) if d.get('count') else -1
                for x in al:
                    ok('complete-when', x[3] and (x[2] == 'new' or x[2] == 'now' and tr.index(x) > cnt), 'returned-item-counted', 'completeness is not decided by comparing the number of returned items with that of the submitted ones')
                if compl is None and vals:
                    z = key(vals[0])
                    if z is not None and z[0] == 'B' and z[1] == '==':
                        c2 = [(count_state(x, counts), key(y)) for x, y in ((z[2], z[3]), (z[3], z[2]))]
                        ok('complete-when', any(n and y is not None and y[0] == 'F' and y[2] in expected for n, y in c2), 'returned-item-counted', 'completeness is not decided by comparing the number of returned items with that of the submitted ones')
                if compl is not None:
                    ok('complete', (compl is True) == (True in a), 'returned-item-counted', 'completeness is not reported exactly when the last item has returned')
            else:
                ok('known-duplicate', any(not x[1] for x in same) and any(not x[2] for x in pend), 'returned-item-counted', 'a returned item is dropped although its place may still be open')
                ok('duplicate', 'count' not in d and 'store' not in d and compl is not True, 'returned-item-counted', 'a second copy of an item replaces the first or is counted again')
        else:
            proc = [x for x in d.get('status', []) if x[1] == 'PROCESSED']
            ok('late-slot', 'store' not in d and 'count' not in d and compl is not True, 'position-restored', 'an item of an earlier iteration replaces or counts as one of the current iteration')
            p = any(x[2] for x in proc)
            if p:
                ok('late-kept', d.get('old') and all(x[1] for x in d['old']), 'late-item-kept', 'a processed item of an earlier iteration is dropped')
            else:
                ok('late-failed', 'old' not in d, 'late-item-kept', 'an unprocessed item of an earlier iteration is kept')
    rep.floor('paths of ' + where, ncur, 1)


register('C17', run, 'lib',
         'path enumeration over the executors: tagging and submission per item, order of phases, sorting in of returned items, derivation of the reported state',
         'every work item of an iteration is submitted once, awaited, filed at its position and accounted for in the reported state')
