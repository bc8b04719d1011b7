"""C21: an optimisation run ends exactly when a halt criterion says so; C23: checkpoints and files."""
import itertools
from fractions import Fraction
from facts import walk, AnalysisBroken
from flow import *
from rules.registry import register
from rules.matrix import short
from rules.c_workers import plain, calls_in, nm
from rules.c_broker import Rec
from rules.c_ranking import Dec, canon, calc, leaves, run_free, enum_of, enum_leaf, lower_better, OA


class Deep(Dec):
    """follows all functions of the class hierarchy except some"""
    max_depth = 8

    def __init__(self, hier, stop=()):
        Dec.__init__(self, (), stop)
        self.hier = hier

    def relevant(self, f):
        return f.body is not None and f.n not in self.stop and (f.cls in self.hier or Dec.relevant(self, f))

    def resolve(self, it, ev):
        return False if ev.name in self.stop else None


def runs_of(prog, q, f, stop=(), args=None):
    d = Deep({q} | set(prog.bases_of(q)), stop)
    it = Interp(prog, d, q)
    out, thrown = it.run(f, (), args)
    c = lambda br: tuple((canon(t), v) for t, v in br)
    return [(c(st.cl), canon(r), st) for st, r in out], [(c(st.cl), ty) for st, ty, n in thrown]


def field_of(prog, q, getter):
    """the data member a public getter returns"""
    for f in plain(prog, q):
        if f.n == getter and not f.params:
            rs, _ = runs_of(prog, q, f)
            fs = {r for br, r, st in rs}
            if len(fs) == 1:
                r = next(iter(fs))
                if r is not None and r[0] == 'F' and r[1] == THIS:
                    return r
    return None


def out_field(prog, q, getter):
    """(returned member, member assigned to the output argument)"""
    for f in plain(prog, q):
        if f.n == getter and len(f.params) == 1:
            ret = flag = None
            for x in class_nodes(prog, f):
                if x['k'] == 'bin' and x['op'] == '=' and x['a'].get('k') == 'ref' and x['b'].get('k') == 'member':
                    flag = ('F', THIS, x['b']['n'])
            rs, _ = runs_of(prog, q, f)
            for br, r, st in rs:
                ret = r
            if ret is not None and ret[0] == 'F':
                return ret, flag
    return None, None


# ---------------------------------------------------------------- C21
def halting(prog, rep, q):
    fs = {f.n: f for f in plain(prog, q)}
    if "halt" not in fs:
        raise AnalysisBroken('the function deciding about the end of the optimisation was not found')
    f = fs['halt']
    F = {}
    for g, name in (('getMaxIteration', 'max'), ('getMinIteration', 'min'), ('getMaxStallIteration', 'maxstall'), ('getStallCounter', 'stall'), ('getMaxTime', 'maxtime'), ('getMinTime', 'mintime')):
        F[name] = field_of(prog, q, g)
    F['it'] = field_of(prog, q, 'getIteration_') or field_of(prog, q, 'getIteration')
    F['thr'], F['hasq'] = out_field(prog, q, 'getQualityThreshold')
    _, F['touch'] = out_field(prog, q, 'getTerminationFile')
    miss = [k for k, v in F.items() if v is None]
    if miss:
        raise AnalysisBroken('settings of the halt criteria not found: ' + ', '.join(miss))
    name = {v: k for k, v in F.items()}
    runs, thrown = runs_of(prog, q, f, ('customHalt_',))
    runs = [(br, r) for br, r, st in runs]
    enums = enum_leaf(prog)
    ls = leaves(runs)
    modes = {t: enum_of(prog, runs, t) for t in ls}
    rep.floor('paths through the decision to halt', len(runs), 10)
    rep.floor('quantities consulted when deciding to halt', len(ls), 10)
    timing = [t for t in ls if t[0] == 'F' and t[1] == THIS and t not in name]

    def assign(a):
        def leaf(t):
            if t in name:
                return a[name[t]]
            if t[0] == 'E':
                return enums.get(t[1])
            if modes.get(t):
                return enums[modes[t] + '::' + a['mode']]
            if t[0] == 'C' and t[1] == 'count' and t[2] in name:
                return a[name[t[2]]]
            if t[0] == 'B' and t[1] == '-' and 'now' in str(t[2]) and t[3] in timing:
                return a['elapsed']
            if t[0] == 'C' and t[1] == 'customHalt_':
                return a['custom']
            if t[0] == 'C' and t[1] == 'exists':
                return a['exists']
            if t[0] == 'C' and t[1] == 'last_write_time':
                return a['mtime']
            if t[0] == 'G' and 'sig' in t[1].lower() or t[0] == 'C' and 'SIGHUP' in t[1]:
                return a['sig']
            if t[0] == 'X' and t[1][0] == 'F' and t[1][1] == THIS:
                return a['raw'] if 'RAW' in str(t[2]) else a['transformed']
            if t[0] == 'F' and t[1] == THIS and 'start' in t[2].lower():
                return 5
            return None
        return leaf
    groups = {
        'sig': [{'sig': 0}, {'sig': 1}],
        'touch': [dict(touch=a, exists=b, mtime=c) for a, b, c in ((0, 0, 4), (1, 0, 6), (0, 1, 6), (1, 1, 4), (1, 1, 5), (1, 1, 6))],
        'it': [dict(it=i, min=m, max=x) for i, m, x in ((3, 0, 0), (3, 3, 0), (2, 3, 0), (3, 2, 4), (4, 2, 4), (5, 2, 4), (2, 2, 2), (3, 2, 2), (1, 0, 1), (0, 0, 1), (2, 3, 1))],
        'stall': [dict(stall=s, maxstall=m) for s, m in ((0, 0), (5, 0), (1, 2), (2, 2), (3, 2))],
        'time': [dict(elapsed=e, mintime=m, maxtime=x) for e, m, x in ((2, 0, 0), (1, 2, 0), (2, 2, 0), (3, 2, 0), (2, 0, 3), (3, 0, 3), (4, 0, 3), (1, 2, 1))],
        'quality': [dict(hasq=h, raw=r, thr=5, transformed=t, mode=m) for h in (0, 1) for r, t in ((4, 6), (5, 5), (6, 4)) for m in ('MINIMIZE', 'MAXIMIZE')],
        'custom': [{'custom': 0}, {'custom': 1}],
    }
    quiet = dict(sig=0, touch=0, exists=0, mtime=4, it=3, min=0, max=0, stall=0, maxstall=0, elapsed=2, mintime=0, maxtime=0, hasq=0, raw=5, thr=5, transformed=5, mode='MINIMIZE', custom=0)

    def spec(a):
        if a['sig'] or a['touch'] and a['exists'] and a['mtime'] > 5:
            return True
        if a['it'] <= a['min'] or a['elapsed'] <= a['mintime']:
            return False
        return bool(a['max'] and a['it'] >= a['max'] or a['maxstall'] and a['stall'] > a['maxstall'] or a['maxtime'] and a['elapsed'] >= a['maxtime']
                    or a['hasq'] and (a['raw'] < a['thr'] if a['mode'] == 'MINIMIZE' else a['raw'] > a['thr']) or a['custom'])
    cases, bad, undecided = 0, {}, set()
    names = sorted(groups)
    for g1, g2 in itertools.combinations(names, 2):
        for x in groups[g1]:
            for y in groups[g2]:
                a = dict(quiet, **x, **y)
                leaf = assign(a)
                memo = {}
                res = set()
                for br, ret in runs:
                    ok = True
                    for t, truth in br:
                        if t not in memo:
                            memo[t] = calc(t, leaf)
                        v = memo[t]
                        if v is not None and bool(v) != truth:
                            ok = False
                            break
                    if ok:
                        v = calc(ret, leaf)
                        res.add(None if v is None else bool(v))
                cases += 1
                w = spec(a)
                for g in (g1, g2):
                    if res != {w}:
                        if None in res or len(res) != 1:
                            undecided.add((g1, g2))
                        else:
                            bad.setdefault((g1, g2), (a, w))
    rep.stat('halt_situations', cases)
    if undecided and not bad and len(undecided) == len(list(itertools.combinations(names, 2))):
        raise AnalysisBroken('the decision to halt could not be analysed')
    what = {'sig': 'hang-up signal', 'touch': 'termination file', 'it': 'number of iterations', 'stall': 'number of stalls', 'time': 'time', 'quality': 'quality threshold', 'custom': 'custom criterion'}
    for p in itertools.combinations(names, 2):
        x = bad.get(p)
        rep.ob('%s::halt/%s, %s' % (short(q), what[p[0]], what[p[1]]), x is None and p not in undecided, f.loc, 'halt-decision',
               'the decision depends on something else' if x is None else 'the run %s although it should %s with %s' % ('continues' if x[1] else 'ends', 'end' if x[1] else 'continue', {k: v for k, v in x[0].items() if v != quiet[k]}))


STEPS = ('cycleLogic_', 'updateStallCounter', 'updateGlobalBestsPQ_', 'updateIterationBestsPQ_', 'halt', 'markIteration', 'checkpoint', 'init', 'finalize', 'adjustPopulation_', 'setIndividualPersonalities', 'resetIndividualPersonalities', 'addCleanStoredBests',
         'markBestFitness', 'markNStalls', 'actOnStalls_', 'informationUpdate')


def iterations(prog, rep, q):
    """what happens in each iteration, before the first and after the last"""
    fs = {f.n: f for f in plain(prog, q)}
    f = fs.get('optimize_')
    it = field_of(prog, q, 'getIteration_') or field_of(prog, q, 'getIteration')
    stall = field_of(prog, q, 'getStallCounter')
    offset = field_of(prog, q, 'getStartIteration')
    if f is None or it is None:
        raise AnalysisBroken('main loop of the optimisation algorithms not found')

    def sel(ev, st):
        if ev.kind == 'call' and ev.name in STEPS and (ev.base is None or ev.base == THIS):
            a = [canon(x) for x in ev.args]
            return ('do', ev.name, tuple(a))
        if ev.kind == 'assign' and ev.lhs is not None and canon(ev.lhs) in (it, stall, offset):
            return ('set', canon(ev.lhs)[2], ev.op, canon(ev.rhs))
        if ev.kind == 'assign' and ev.lhs is not None and ev.rhs is not None and 'halt' in str(canon(ev.rhs)):
            r, v = canon(ev.rhs), True
            while r[0] == 'U' and r[1] in ('!', 'not'):
                r, v = canon(r[2]), not v
            if r[0] == 'C' and r[1] == 'halt':
                return ('answer', canon(ev.lhs), v)
        return None

    def br(t, truth, st):
        t, truth2 = canon(t), truth
        while t is not None and t[0] == 'U' and t[1] in ('!', 'not'):
            t, truth2 = canon(t[2]), not truth2
        if t is not None and t[0] == 'C' and t[1] == 'halt':
            return ('halted', truth2)
        for x in reversed(st.cl[0]):
            if x[0] == 'answer' and x[1] == t:
                return ('halted', truth2 == x[2])
        if t is not None and stall is not None and mentions(t, lambda y: y == stall):
            return ('stalled', t, truth2)
        return None

    def idle(t, n):
        return calc(t, lambda y: n if y == stall else None)

    def told(x, tr):
        """the argument says whether the stall counter is zero"""
        if x is None:
            return False
        if x[0] == 'C':
            return True
        b = litbool(x)
        if b is not None:
            return any(e[0] == 'stalled' and (bool(idle(e[1], 0)) == e[2]) == b and (bool(idle(e[1], 1)) == e[2]) == (bool(idle(e[1], 5)) == e[2]) == (not b) for e in tr)
        v = [idle(x, i) for i in (0, 1, 5)]
        return None not in v and bool(v[0]) and not v[1] and not v[2]
    hier = {q} | set(prog.bases_of(q))
    k = Rec(hier, sel, br, None, STEPS)
    out, thrown = Interp(prog, k, q).run(f, ((), ()))
    where = '%s::%s' % (short(q), f.n)
    n = 0
    bodies = [r for nd, r in k.again + k.exits if any(x[0] == 'do' and x[1] == 'cycleLogic_' for x in r)]
    rep.floor('paths through an iteration', len(bodies), 1)

    def order(tr, a, b):
        i = [j for j, x in enumerate(tr) if x[0] == 'do' and x[1] == a]
        j = [j for j, x in enumerate(tr) if x[0] == 'do' and x[1] == b]
        return not i or not j or max(i) < min(j)
    for tr in bodies:
        n += 1
        cnt = lambda x: sum(1 for y in tr if y[0] == 'do' and y[1] == x)
        rep.ob(where + '/one-cycle', cnt('cycleLogic_') == 1, f.loc, 'one-cycle', 'the optimisation cycle is not performed exactly once per iteration')
        rep.ob(where + '/stall', cnt('updateStallCounter') == 1 and any(x[0] == 'do' and x[1] == 'updateStallCounter' and 'cycleLogic_' in str(x[2]) for x in tr) or
               any(x[0] == 'do' and x[1] == 'updateStallCounter' and x[2] and x[2][0] is not None and x[2][0][0] in ('V', 'F') for x in tr) and cnt('updateStallCounter') == 1, f.loc, 'progress-recorded', 'the result of the cycle is not recorded exactly once per iteration')
        rep.ob(where + '/best', cnt('updateGlobalBestsPQ_') == 1, f.loc, 'best-recorded', 'the best individuals are not recorded in each iteration')
        rep.ob(where + '/iteration-best', cnt('updateIterationBestsPQ_') == 1, f.loc, 'best-recorded', 'the best individuals of the iteration are not recorded')
        rep.ob(where + '/checkpoint', cnt('checkpoint') == 1, f.loc, 'checkpointed', 'checkpoints are not considered in each iteration')
        for x in tr:
            if x[0] == 'do' and x[1] == 'checkpoint' and x[2] and stall is not None:
                rep.ob(where + '/progress', told(x[2][0], tr), f.loc, 'progress', 'whether there was progress is not decided by the stall counter')
        for a, b in (('markIteration', 'cycleLogic_'), ('cycleLogic_', 'updateStallCounter'), ('cycleLogic_', 'updateGlobalBestsPQ_'), ('cycleLogic_', 'updateIterationBestsPQ_'), ('updateGlobalBestsPQ_', 'checkpoint'), ('updateStallCounter', 'checkpoint'),
                     ('updateStallCounter', 'halt'), ('cycleLogic_', 'halt'), ('checkpoint', 'halt'), ('updateGlobalBestsPQ_', 'markBestFitness')):
            rep.ob(where + '/%s before %s' % (a, b), order(tr, a, b), f.loc, 'order', '%s does not happen before %s' % (a, b))
        inc = [j for j, x in enumerate(tr) if x[0] == 'set' and x[1] == it[2]]
        one = len(inc) == 1 and (tr[inc[0]][2] == '++' or tr[inc[0]][2] == '+=' and tr[inc[0]][3] == ('L', 'int', '1') or tr[inc[0]][3] in (('B', '+', it, ('L', 'int', '1')), ('B', '+', ('L', 'int', '1'), it)))
        rep.ob(where + '/count', one, f.loc, 'iteration-counted', 'the iteration is not counted exactly once')
        h = [j for j, x in enumerate(tr) if x[0] == 'do' and x[1] == 'halt']
        rep.ob(where + '/halt-asked', len(h) == 1 and bool(inc) and h[0] > inc[-1], f.loc, 'halt-asked', 'it is not decided once at the end of each iteration whether to halt')
        rep.ob(where + '/marked', cnt('markIteration') == 1, f.loc, 'iteration-marked', 'the individuals are not told the iteration')
    for nd, tr in k.again:
        if any(x[0] == 'do' and x[1] == 'cycleLogic_' for x in tr):
            rep.ob(where + '/continues', ('halted', True) not in tr, f.loc, 'continues-unless-halted', 'a further iteration is performed although the run was to be halted')
    for nd, tr in k.exits:
        if any(x[0] == 'do' and x[1] == 'cycleLogic_' for x in tr):
            rep.ob(where + '/ends', ('halted', False) not in tr and ('halted', True) in tr, f.loc, 'ends-only-if-halted', 'the run ends although no halt criterion was met')
    loops = {id(nd) for nd, s, tr in k.loops if any(x[0] == 'do' and x[1] == 'cycleLogic_' for x in tr)}
    for st, r in out:
        tr = st.cl[0]
        i = next((j for j, x in enumerate(tr) if x[0] == 'body' and x[1] in loops), None)
        if i is None:
            rep.ob(where + '/runs', False, f.loc, 'runs', 'on some path no iteration is performed')
            continue
        pre, post = tr[:i], tr[i + 1:]
        n += 1
        for x in ('adjustPopulation_', 'init', 'setIndividualPersonalities', 'addCleanStoredBests'):
            rep.ob(where + '/before ' + x, sum(1 for y in pre if y[0] == 'do' and y[1] == x) == 1, f.loc, 'prepared', '%s is not performed once before the first iteration' % x)
        rep.ob(where + '/order of preparation', order(pre, 'adjustPopulation_', 'init') and order(pre, 'adjustPopulation_', 'setIndividualPersonalities') and order(pre, 'addCleanStoredBests', 'adjustPopulation_'), f.loc, 'prepared', 'the preparations are not made in their order')
        for x in ('finalize', 'resetIndividualPersonalities'):
            rep.ob(where + '/after ' + x, sum(1 for y in post if y[0] == 'do' and y[1] == x) == 1, f.loc, 'cleaned-up', '%s is not performed once after the last iteration' % x)
        last = {}
        for y in pre:
            if y[0] == 'set':
                last[y[1]] = y[3]
        rep.ob(where + '/start', last.get(it[2]) == ('P', 0, f.params[0]['n']) and (offset is None or last.get(offset[2]) == ('P', 0, f.params[0]['n'])), f.loc, 'starts-at-offset', 'iterations are not counted from the requested offset')
        if stall is not None:
            rep.ob(where + '/no stalls', last.get(stall[2]) in (('L', 'int', '0'),), f.loc, 'stalls-reset', 'stalls of previous runs are counted')
    return n


def stalls(prog, rep, q):
    """stalls are counted while there is no progress"""
    stall = field_of(prog, q, 'getStallCounter')
    n = 0
    for f in plain(prog, q):
        if f.n != 'updateStallCounter':
            continue

        def sel(ev, st):
            if ev.kind == 'assign' and ev.lhs is not None and canon(ev.lhs) == stall:
                return ('set', ev.op, canon(ev.rhs))
            return None

        def br(t, truth, st):
            t = canon(t)
            while t[0] == 'U' and t[1] in ('!', 'not'):
                t, truth = canon(t[2]), not truth
            return ('better', truth) if t[0] == 'C' and t[1] == 'isBetter' else None
        k = Rec({q}, sel, br, None, ('isBetter',))
        out, thrown = Interp(prog, k, q).run(f, ((), ()))
        for st, r in out:
            tr = st.cl[0]
            b = [x[1] for x in tr if x[0] == 'better']
            s = [x for x in tr if x[0] == 'set']
            if not b:
                rep.stat('stall_paths_not_decided')
                continue
            n += 1
            if b[-1]:
                rep.ob(short(q) + '::updateStallCounter/progress', len(s) == 1 and s[0][2] in (('L', 'int', '0'), ('L', 'uint', '0')), f.loc, 'stall-reset', 'the stall counter is not reset when there is progress')
            else:
                one = ('L', 'int', '1')
                rep.ob(short(q) + '::updateStallCounter/stall', len(s) == 1 and (s[0][1] == '++' or s[0][1] == '+=' and s[0][2] == one or s[0][2] in (('B', '+', stall, one), ('B', '+', one, stall))), f.loc, 'stall-counted', 'an iteration without progress is not counted as one stall')
    return n


def limits(prog, rep, q):
    """limits that contradict each other are refused, all others stored"""
    pairs = (('setMaxIteration', 'getMaxIteration', 'getMinIteration', lambda p, o: p != 0 and p <= o), ('setMinIteration', 'getMinIteration', 'getMaxIteration', lambda p, o: o != 0 and o <= p),
             ('setMaxTime', 'getMaxTime', 'getMinTime', lambda p, o: p != 0 and p < o), ('setMinTime', 'getMinTime', 'getMaxTime', lambda p, o: o != 0 and o < p))
    n = 0
    for s, g, other, refuse in pairs:
        own, oth = field_of(prog, q, g), field_of(prog, q, other)
        for f in plain(prog, q):
            if f.n != s or own is None or oth is None or len(f.params) != 1:
                continue
            p = ('P', 0, f.params[0]['n'])
            runs, thrown = runs_of(prog, q, f, ('isClose',))
            for pv, ov, cur in itertools.product((0, 2, 3, 4), (0, 2, 3, 4), (0, 2, 3, 9)):
                def leaf(t):
                    if t == p:
                        return pv
                    if t == oth:
                        return ov
                    if t == own:
                        return cur
                    if t[0] == 'C' and t[1] == 'count' and t[2] is not None:
                        return leaf(t[2])
                    if t[0] == 'C' and t[1] == 'isClose' and len(t[3]) >= 2:
                        a, b = calc(t[3][0], leaf), calc(t[3][1], leaf)
                        return None if a is None or b is None else Fraction(a == b)
                    return None
                fits = lambda br: all(calc(t, leaf) is None or bool(calc(t, leaf)) == v for t, v in br)
                no = [x for x in runs if fits(x[0])]
                th = [x for x in thrown if fits(x[0])]
                n += 1
                if refuse(pv, ov):
                    rep.ob('%s::%s/refused' % (short(q), s), not no, f.loc, 'contradiction-refused', 'a limit which contradicts the other one is accepted (value %s, other limit %s)' % (pv, ov))
                else:
                    rep.ob('%s::%s/accepted' % (short(q), s), not th, f.loc, 'valid-accepted', 'a valid limit is refused (value %s, other limit %s, previous value %s)' % (pv, ov, cur))
    return n


def run21(prog, rep):
    base = [q for q in prog.classes if short(q) == OA]
    if len(base) != 1:
        raise AnalysisBroken('base class of the optimisation algorithms not found')
    q = base[0]
    halting(prog, rep, q)
    rep.floor('paths through the main loop', iterations(prog, rep, q), 2)
    rep.floor('paths counting stalls', stalls(prog, rep, q), 2)
    rep.floor('combinations of limits', limits(prog, rep, q), 16)


register('C21', run21, 'all',
         rule='halt-decision, iteration-structure, stall-count, limits',
         explanation='Decision table of the halting decision over all pairs of criteria against its specification; structure of each iteration of the main loop on every path (one cycle, records, count, halting decision), preparation and clean-up around it; counting of stalls; acceptance of limits.',
         assumptions=['the clock does not go backwards'])


# ---------------------------------------------------------------- C23
def stream_state(t, truth, streams):
    """(stream, it is usable) if the condition is about the state of one of the streams"""
    t = canon(t)
    while t is not None and t[0] == 'U' and t[1] in ('!', 'not'):
        t, truth = canon(t[2]), not truth
    if t is None:
        return None
    if t in streams:
        return t, truth
    if t[0] == 'C' and t[2] is not None and canon(t[2]) in streams:
        if t[1] in ('good', 'is_open', 'operator bool', 'conv'):
            return canon(t[2]), truth
        if t[1] in ('fail', 'bad', 'operator!'):
            return canon(t[2]), not truth
    return None


def files(prog, rep, q):
    n = 0
    for f in plain(prog, q):
        if f.n not in ('toFile', 'fromFile') or len(f.params) != 2:
            continue
        out_ = f.n == 'toFile'
        work = 'toStream' if out_ else 'fromStream'
        p0, p1 = [('P', i, f.params[i]['n']) for i in (0, 1)]

        def isstream(t):
            return t is not None and t[0] == 'K' and ('ofstream' in t[1] or 'ifstream' in t[1] or 'fstream' in t[1])

        def sel(ev, st):
            a = [canon(x) for x in ev.args] if ev.args else []
            b = canon(ev.base) if ev.base is not None else None
            if ev.kind == 'ctor' and 'fstream' in (ev.name or ''):
                return ('open', ev.name, tuple(a))
            if ev.kind == 'call' and ev.name == work:
                return ('work', tuple(a))
            if ev.kind == 'call' and isstream(b) and ev.name in ('close', 'flush'):
                return (ev.name,)
            return None

        def br(t, truth, st):
            t = canon(t)
            ss = {x for x in subterms(t) if isstream(x)}
            r = stream_state(t, truth, ss)
            return ('state', r[1]) if r else None
        k = Rec({q} | set(prog.bases_of(q)), sel, br, None, (work,))
        out, thrown = Interp(prog, k, q).run(f, ((), ()))
        where = '%s::%s' % (short(q), f.n)
        for st, r in out:
            tr = st.cl[0]
            n += 1
            w = [i for i, x in enumerate(tr) if x[0] == 'work']
            o = [i for i, x in enumerate(tr) if x[0] == 'open']
            rep.ob(where + '/once', len(w) == 1 and bool(o) and o[0] < w[0], f.loc, 'transferred-once', 'on some path the object is not %s the file exactly once' % ('written to' if out_ else 'read from'))
            if len(w) != 1 or not o:
                continue
            op = tr[o[-1]]
            rep.ob(where + '/file', bool(op[2]) and op[2][0] is not None and mentions(op[2][0], lambda x: x == p0), f.loc, 'right-file', 'another file than the requested one is used')
            rep.ob(where + '/mode', len(tr[w[0]][1]) == 2 and isstream(tr[w[0]][1][0]) and tr[w[0]][1][1] == p1, f.loc, 'right-format', 'the object is not transferred through the stream of the file in the requested format')
            rep.ob(where + '/opened', ('state', True) in tr[o[-1]:w[0]], f.loc, 'open-checked', 'it is not checked whether the file could be opened')
            if out_:
                rep.ob(where + '/fresh', not any('app' in str(x) for x in op[2][1:]), f.loc, 'overwritten', 'the data is appended to previous contents')
                c = [i for i, x in enumerate(tr) if x[0] in ('close', 'flush') and i > w[0]]
                rep.ob(where + '/written', bool(c) and ('state', True) in tr[c[0]:], f.loc, 'write-checked', 'it is not checked after closing the file whether the data has been written')
    return n


def plus(t):
    t = canon(t)
    if t is not None and t[0] == 'B' and t[1] == '+':
        return plus(t[2]) + plus(t[3])
    if t is not None and t[0] == 'K' and len(t[2]) >= 1:
        return plus(t[2][0])
    return [t]


def text(t):
    """the text of a string literal"""
    return str(t[2]).strip('"') if t is not None and t[0] == 'L' else None


def checkpoints(prog, rep, q):
    fs = {f.n: f for f in plain(prog, q)}
    n = 0
    F = {k: field_of(prog, q, g) for k, g in (('interval', 'getCheckpointInterval'), ('halted', 'halted'), ('mode', 'getCheckpointSerializationMode'))}
    F['it'] = field_of(prog, q, 'getIteration_') or field_of(prog, q, 'getIteration')
    rm = [field_of(prog, q, g) for g in ('checkpointsAreRemoved', 'getRemoveCheckpointFiles')]
    if F['interval'] is None or 'checkpoint' not in fs:
        raise AnalysisBroken('checkpointing not found')
    f = fs['checkpoint']
    p0 = ('P', 0, f.params[0]['n'])

    def sel(ev, st):
        a = tuple(canon(x) for x in ev.args) if ev.args else ()
        if ev.kind == 'call' and ev.name in ('saveCheckpoint', 'toFile'):
            return ('save', a)
        if ev.kind == 'call' and ev.name in ('remove', 'remove_all', 'unlink') and a:
            return ('remove', a)
        if ev.kind == 'assign' and ev.lhs is not None and canon(ev.lhs)[0] == 'F':
            return ('set', canon(ev.lhs), canon(ev.rhs))
        return None
    hier = {q} | set(prog.bases_of(q))
    k = Rec(hier, sel, lambda t, v, st: ('br', canon(t), v), None, ('saveCheckpoint', 'toFile'))
    out, thrown = Interp(prog, k, q).run(f, ((), ()))
    where = '%s::checkpoint' % short(q)
    lasts = {x[1] for st, r in out for x in st.cl[0] if x[0] == 'set' and any(y[0] == 'save' for y in st.cl[0])}
    for st, r in out:
        tr = st.cl[0]
        n += 1
        save = [i for i, x in enumerate(tr) if x[0] == 'save']
        for iv, better, it, halted in itertools.product((-1, 0, 2), (0, 1), (3, 4), (0, 1)):
            def leaf(t):
                return iv if t == F['interval'] else better if t == p0 else it if t == F['it'] else halted if t == F['halted'] else None
            if any(x[0] == 'br' and calc(x[1], leaf) is not None and bool(calc(x[1], leaf)) != x[2] for x in tr):
                continue
            want = bool(iv < 0 and better or iv > 0 and it % iv == 0 or halted)
            rep.ob('%s/interval %d' % (where, iv), bool(save) == want and len(save) <= 1, f.loc, 'saved-when-requested', 'a checkpoint is %s (interval %d, iteration %d, progress %d, halted %d)' % ('not written' if want else 'written without being requested', iv, it, better, halted))
        if not save:
            rep.ob(where + '/removed', not any(x[0] == 'remove' for x in tr), f.loc, 'removed-after-saving', 'a checkpoint is removed although no new one was written')
            continue
        path = tr[save[0]][1][0] if tr[save[0]][1] else None
        for i, x in enumerate(tr):
            if x[0] == 'remove':
                rep.ob(where + '/removed', i > save[0], f.loc, 'removed-after-saving', 'the previous checkpoint is removed before the new one was written')
                last = [y for y in subterms(x[1][0]) if y in lasts]
                rep.ob(where + '/which', bool(last) and not mentions(x[1][0], lambda y: y == path), f.loc, 'previous-removed', 'something else than the previous checkpoint is removed')
                differs = any(y[0] == 'br' and y[1] is not None and y[1][0] == 'B' and y[1][1] == '==' and not y[2] and any(z in last for z in subterms(y[1])) and path is not None and mentions(y[1], lambda z: z == path) for y in tr[:i])
                rep.ob(where + '/other', differs, f.loc, 'other-removed', 'the checkpoint that was just written is removed if it has the name of the previous one')
                ended = any(y[0] == 'set' and y[1] in lasts for y in tr[:i])
                rep.ob(where + '/still-known', not ended, f.loc, 'previous-removed', 'the name of the previous checkpoint is forgotten before it is removed')
        sets = [x for x in tr if x[0] == 'set' and x[1] in lasts]
        rep.ob(where + '/recorded', len(sets) >= 1 and path is not None and mentions(sets[-1][2], lambda y: y == path), f.loc, 'name-recorded', 'the name of the checkpoint is not recorded')
        # the name tells the algorithm
        parts = []
        for y in subterms(path or ()):
            if y[0] == 'B' and y[1] == '+' and mentions(y, lambda z: z[0] == 'C' and 'ersonalityType' in z[1]):
                parts = plus(y)
                break
        if parts:
            i = next((j for j, y in enumerate(parts) if y is not None and y[0] == 'C' and 'ersonalityType' in y[1]), None)
            pre = [text(y) for y in parts[:i]] if i is not None else [None]
            ok = None not in pre and ''.join(pre).endswith('-') and i + 1 < len(parts) and (text(parts[i + 1]) or '').startswith('-')
            rep.ob(where + '/name', ok, f.loc, 'name-tells-algorithm', 'the name of the algorithm cannot be recognised in the name of the checkpoint')
            if ok:
                n += 1
                pos = ''.join(pre).count('-')
                g = fs.get('extractOptAlgFromPath')
                if g is not None:
                    rs, th = runs_of(prog, q, g, ('splitString',))
                    for br, r2, s2 in rs:
                        r2 = canon(r2)
                        if r2 is not None and r2[0] in ('X', 'C') and 'splitString' in str(r2):
                            idx = r2[2] if r2[0] == 'X' else r2[3][0] if r2[1] == 'at' else None
                            rep.ob('%s::extractOptAlgFromPath/position' % short(q), idx is not None and text(idx) == str(pos), g.loc, 'name-tells-algorithm', 'the name of the algorithm is looked for in another part of the name of a checkpoint than it is written to')
    # saving and loading
    modes = {}
    for g in ('saveCheckpoint', 'loadCheckpoint'):
        if g not in fs:
            continue
        f = fs[g]
        a0 = ('P', 0, f.params[0]['n'])
        want = 'toFile' if g == 'saveCheckpoint' else 'fromFile'
        k = Rec(hier, lambda ev, st: ('io', ev.name, tuple(canon(x) for x in ev.args)) if ev.kind == 'call' and ev.name in ('toFile', 'fromFile') else None, lambda t, v, st: ('br', canon(t), v), None, ('toFile', 'fromFile', 'extractOptAlgFromPath'))
        out, thrown = Interp(prog, k, q).run(f, ((), ()))
        for st, r in out:
            io = [x for x in st.cl[0] if x[0] == 'io']
            n += 1
            rep.ob('%s::%s/file' % (short(q), g), len(io) == 1 and io[0][1] == want and len(io[0][2]) == 2 and io[0][2][0] == a0, f.loc, 'checkpoint-file', 'the checkpoint is not %s the requested file' % ('written to' if want == 'toFile' else 'read from'))
            if len(io) == 1 and len(io[0][2]) == 2:
                modes[g] = io[0][2][1]
            if g == 'loadCheckpoint':
                eq = [x for x in st.cl[0] if x[0] == 'br' and x[1] is not None and x[1][0] == 'B' and x[1][1] == '==' and 'ersonalityType' in str(x[1]) and mentions(x[1], lambda y: y == a0)]
                rep.ob('%s::%s/own' % (short(q), g), bool(eq) and all(x[2] for x in eq), f.loc, 'own-checkpoints', 'checkpoints of other algorithms are loaded')
    if len(modes) == 2:
        rep.ob('%s/same format' % short(q), len(set(modes.values())) == 1, f.loc, 'same-format', 'checkpoints are read in another format than they are written in')
    # names of algorithms
    seen = {}
    for d in sorted({q} | set(prog.derived_of(q))):
        if not any(g.n == 'cycleLogic_' and calls_in(g.body, 'runFitnessCalculation_') for b in [d] + list(prog.bases_of(d)) for g in plain(prog, b)):
            continue            # not an algorithm that evaluates anything
        for g in plain(prog, d):
            if g.n in ('getAlgorithmPersonalityType_', 'getAlgorithmPersonalityType') and d != q:
                rs, th = runs_of(prog, d, g)
                for br, r, st in rs:
                    x = plus(r)[0]
                    if x is not None and x[0] in ('G', 'L'):
                        t = str(x[1] if x[0] == 'G' else x[2])
                        v = text(x) if x[0] == 'L' else None
                        rep.ob('%s/name' % short(d), seen.setdefault(t, d) == d and (v is None or '-' not in v), g.loc, 'distinct-names', 'the name of the algorithm is used by another one or contains a dash')
                        n += 1
    return n


def run23(prog, rep):
    n = 0
    for q in prog.classes:
        if short(q) == 'GCommonInterfaceT':
            n += files(prog, rep, q)
    rep.floor('paths writing and reading files', n, 2)
    base = [q for q in prog.classes if short(q) == OA]
    if len(base) != 1:
        raise AnalysisBroken('base class of the optimisation algorithms not found')
    rep.floor('paths of checkpointing', checkpoints(prog, rep, base[0]), 4)


register('C23', run23, 'all',
         rule='checkpoint-decision, order-of-removal, write-checked, algorithm-recognised',
         explanation='Decision table of writing checkpoints (interval, progress, iteration, end of the run) on every path; the previous file is removed only after the new one was written, and never the new one; opening and writing of files is checked on every path; name of checkpoint files and its inverse agree.',
         assumptions=['closing a file stream reports write errors in its state (standard library)'])
