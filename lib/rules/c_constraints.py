"""C25: violated constraints are recognised, quantified and handled according to the policy."""
from fractions import Fraction
from facts import walk, AnalysisBroken
from flow import *
from rules.registry import register
from rules.matrix import short
from rules.c_workers import plain
from rules.c_broker import key
from rules.loops import LoopRec, elem_of
from rules.locks import run_lambda
from rules.c_ranking import canon, calc, enum_leaf, Dec, HI, LO
from rules.c_run import field_of
from rules.c_settings import own
from rules.c_adaptors import flat, scaled

WORST = 'getWorstCase'


class Con(LoopRec):
    """calls, stores and decisions of each path; full = (loop, what preceded, body)"""

    def __init__(self, hier, calls, throwing=(), opaque=()):
        super().__init__(hier, self.pick, self.decide, None, opaque)
        self.names, self.throwing, self.full = set(calls), set(throwing), []

    def resolve(self, it, ev):
        return False if ev.kind == 'call' and ev.name in self.names else None

    def pick(self, ev, st):
        if ev.kind == 'call' and ev.name in self.names:
            return ('call', ev.name, canon(ev.base), tuple(canon(a) for a in ev.args), id(ev.node))
        if ev.kind == 'call' and ev.name in ('push_back', 'emplace_back') and ev.args:
            return ('push', canon(ev.base), canon(ev.args[0]), id(ev.node))
        if ev.kind in ('assign', 'init') and ev.lhs is not None:
            return ('put', canon(ev.lhs), ev.op if ev.kind == 'assign' and ev.op else '=', canon(ev.rhs), id(ev.node))
        return None

    def decide(self, t, truth, st):
        return ('br', canon(t), truth, t)

    def event(self, ev, st):
        if ev.kind in ('iter', 'loopexit'):
            tr, seg = st.cl
            if seg and seg[-1][0] == id(ev.node):
                self.full.append((ev.node, tr[:seg[-1][1]], tr[seg[-1][1]:]))
        if ev.kind in ('assign', 'init') and ev.lhs is not None:
            r = self.pick(ev, st)
            tr, seg = st.cl
            st2 = st.w(cl=(tr + (r,), seg))
            x = super().event(ev, st2) if ev.kind == 'assign' else None
            return x if x else [st2]
        return super().event(ev, st)

    def may_throw(self, ev, st):
        return ('std::exception',) if ev.kind == 'call' and ev.name in self.throwing else ()


def run_of(prog, q, f, calls, throwing=(), opaque=()):
    k = Con({q} | set(prog.bases_of(q)), calls, throwing, opaque)
    out, thrown = Interp(prog, k, q).run(f, ((), ()))
    return [(st.cl[0], canon(r)) for st, r in out], [(st.cl[0], ty) for st, ty, n in thrown], k


def abs_(t):
    """gfabs and the like are the absolute value"""
    if not isinstance(t, tuple):
        return t
    t = tuple(abs_(x) for x in t)
    if t[:1] == ('C',) and t[1] in ('gfabs', 'fabsl', 'fabsf') and len(t[3]) == 1:
        return ('C', 'fabs', None, t[3])
    return t


def fits(tr, leaf):
    for e in tr:
        if e[0] == 'br':
            v = calc(abs_(e[1]), leaf)
            if v is not None and bool(v) != e[2]:
                return False
    return True


def calls(tr, *names):
    return [e for e in tr if e[0] == 'call' and e[1] in names]


def is_call(t, name):
    return t is not None and t[0] == 'C' and t[1] == name


# ---------------------------------------------------------------- a single constraint
def single(prog, rep, q):
    neg = field_of(prog, q, 'getAllowNegative')
    if neg is None:
        raise AnalysisBroken('the switch for negative values was not found in %s' % short(q))
    n = 0
    for f in plain(prog, q):
        if f.body is None:
            continue
        where = '%s::%s' % (short(q), f.n)
        if f.n == 'check':
            runs, thrown, k = run_of(prog, q, f, ('check_',))
            for tr, r in runs:
                cs = calls(tr, 'check_')
                rep.ob(where + '/asked', len(cs) == 1 and cs[0][3][:1] == (('P', 0, f.params[0]['n']),), f.loc, 'level', 'the constraint is not evaluated once for the individual')
            for v in (0, 1):
                last = {}
                for x in (LO, -3, Fraction(-1, 2), 0, Fraction(1, 2), 1, Fraction(3, 2), 3, HI):
                    leaf = lambda t: v if t == neg else x if is_call(t, 'check_') else None
                    res = {calc(abs_(r), leaf) for tr, r in runs if fits(tr, leaf)}
                    n += 1
                    valid = 0 <= x <= 1 or bool(v) and x <= 1
                    what = 'a raw value of %s%s' % (float(x) if x not in (LO, HI) else 'lowest' if x == LO else 'highest', ' (negative values allowed)' if v else '')
                    good = len(res) == 1 and None not in res and all((0 <= y <= 1) if valid else y > 1 for y in res)
                    rep.ob(where + '/valid', good, f.loc, 'level', '%s becomes %s' % (what, ', '.join(sorted('?' if y is None else str(float(y)) if abs(y) < 1000 else 'extreme' for y in res))))
                    if good and not valid:
                        last[x] = next(iter(res))
                up = [last[x] for x in sorted(last) if x > 1]
                down = [last[x] for x in sorted(last) if x < 0]
                rep.ob(where + '/ordered', up == sorted(up) and len(set(up)) == len(up) and down == sorted(down, reverse=True) and len(set(down)) == len(down), f.loc, 'level', 'a stronger violation does not lead to a higher level')
        if f.n == 'isValid' and len(f.params) == 2:
            runs, thrown, k = run_of(prog, q, f, ('check',))
            lvl = ('P', 1, f.params[1]['n'])
            for tr, r in runs:
                ss = [e for e in tr if e[0] == 'put' and e[1] == lvl]
                rep.ob(where + '/level', len(ss) >= 1 and is_call(ss[-1][3], 'check') and ss[-1][3][3][:1] == (('P', 0, f.params[0]['n']),), f.loc, 'level', 'the level is not reported')
            for v in (0, 1):
                for x in (0, Fraction(1, 2), 1, Fraction(3, 2), 3, HI):
                    leaf = lambda t: v if t == neg else x if is_call(t, 'check') or t == lvl else None
                    res = {calc(abs_(r), leaf) for tr, r in runs if fits(tr, leaf)}
                    n += 1
                    rep.ob(where + '/decision', res == {Fraction(x <= 1)}, f.loc, 'level', 'with a level of %s the individual is %s' % ('highest' if x == HI else float(x), 'invalid' if x <= 1 else 'valid'))
        if f.n == 'isInvalid' and len(f.params) == 2:
            runs, thrown, k = run_of(prog, q, f, ('isValid',))
            for v in (0, 1):
                leaf = lambda t: v if is_call(t, 'isValid') else None
                res = {calc(r, leaf) for tr, r in runs if fits(tr, leaf)}
                n += 1
                rep.ob(where, res == {Fraction(not v)} and all([e[3] for e in calls(tr, 'isValid')] == [tuple(('P', i, p['n']) for i, p in enumerate(f.params))] for tr, r in runs), f.loc, 'level', 'it is not the opposite of being valid')
    return n


# ---------------------------------------------------------------- several constraints
def combined(prog, rep, q, enums):
    n = 0
    pol = field_of(prog, q, 'getCombinerPolicy')
    for f in plain(prog, q):
        if f.n != 'check_' or f.body is None or pol is None:
            continue
        where = '%s::%s' % (short(q), f.n)
        runs, thrown, k = run_of(prog, q, f, ('isValid', 'isInvalid'))
        # all constraints are asked
        asking = [(nd, pre, body) for nd, pre, body in k.full if calls(body, 'isValid', 'isInvalid')]
        rep.ob(where + '/asked', bool(asking), f.loc, 'combination', 'the constraints are not evaluated in a loop')
        bad = {}                                   # the containers collecting the levels
        for nd, pre, body in asking:
            cov = k.coverage(nd)
            rep.ob(where + '/all constraints', cov is not None, f.loc, 'combination', 'not every constraint is evaluated')
            for c in calls(body, 'isValid', 'isInvalid'):
                n += 1
                rep.ob(where + '/individual', len(c[3]) == 2 and c[3][0] == ('P', 0, f.params[0]['n']), f.loc, 'combination', 'another individual is checked')
                rep.ob(where + '/each', cov is None or elem_of(peeled(c[2]), *cov), f.loc, 'combination', 'not the current constraint is evaluated')
                for v in (0, 1):
                    leaf = lambda t: v if t is not None and t[0] == 'C' and t[1] == 'isValid' else 1 - v if t is not None and t[0] == 'C' and t[1] == 'isInvalid' else None
                    if not fits(body, leaf) or body[-1:] == (c,) and False:
                        continue
                    ps = [e for e in body if e[0] == 'push']
                    rep.ob(where + '/collected', len(ps) == (0 if v else 1) and all(related(e[2], c[3][1]) for e in ps), f.loc, 'combination', 'the level of %s constraint is %s' % (('a valid', 'collected') if v else ('an invalid', 'not collected')))
                    for e in ps:
                        bad[e[1]] = 1
        if len(bad) != 1:
            rep.ob(where + '/one list', False, f.loc, 'combination', 'the levels of the violated constraints are not collected in one place')
            continue
        lst = next(iter(bad))
        es = next((e for x, e in prog.enums.items() if any(v['n'] == 'MULTIPLYINVALID' for v in e['vals'])), None)
        if es is None:
            raise AnalysisBroken('policies for combining constraints not found')

        def leaf_for(val, none):
            return lambda t: enums.get(t[1]) if t[0] == 'E' else enums[es['q'] + '::' + val] if t == pol else (1 if none else 0) if t == ('C', 'empty', lst, ()) else (0 if none else 2) if t == ('C', 'size', lst, ()) else None
        for v in es['vals']:
            none = {calc(r, leaf_for(v['n'], True)) for tr, r in runs if fits(tr, leaf_for(v['n'], True))}
            n += 1
            rep.ob(where + '/none violated', bool(none) and all(x is not None and 0 <= x <= 1 for x in none), f.loc, 'combination', 'the combination of fulfilled constraints counts as violated')
            op, start = ('*', 1) if 'MULTIPLY' in v['n'] else ('+', 0) if 'ADD' in v['n'] else (None, None)
            if op is None:
                continue
            leaf = leaf_for(v['n'], False)
            for tr, r in runs:
                if not fits(tr, leaf):
                    continue
                x = calc(r, leaf)
                if x == HI:
                    # must be justified by an extreme level
                    ext = [e for e in tr if e[0] == 'br' and e[2] is True and e[1] is not None and mentions(e[1], lambda y: y[0] == 'C' and y[1] in ('highest', 'lowest', 'max', 'infinity', 'isinf'))]
                    rep.ob('%s/%s extreme' % (where, v['n']), bool(ext), f.loc, 'combination', 'the highest level is reported without need')
                    continue
                if r is not None and r[0] == 'C' and r[1] == 'accumulate':
                    a = r[3]
                    good = len(a) >= 3 and calc(a[2], leaf) == start and (op == '+' and len(a) == 3 or len(a) == 4 and ('multiplies' if op == '*' else 'plus') in str(a[3]))
                    rep.ob('%s/%s' % (where, v['n']), good, f.loc, 'combination', 'the levels are not combined with %s' % op)
                    continue
                var = [e for e in tr if e[0] == 'set' and not isinstance(e[1], tuple) and calc(e[2], leaf) == start]
                ids = {u[1] for u in var}
                rv = {y[1] for y in subterms(r or ()) if y[0] == 'V'}
                rep.ob('%s/%s result' % (where, v['n']), bool(rv & ids), f.loc, 'combination', 'the result of the combination is not returned, or it does not start with %d' % start)
                seen = False
                for nd, pre, body in k.full:
                    if not fits(pre + body, leaf):
                        continue
                    ups = [b for b in body if b[0] == 'put' and b[1] is not None and b[1][0] == 'V' and b[1][1] in rv]
                    if not ups and not any(b[0] == 'put' and b[1] is not None and b[1][0] == 'V' and b[1][1] in rv for n2, p2, b2 in k.full if n2 is nd for b in b2):
                        continue
                    seen = True
                    good = len(ups) == 1 and (ups[0][2] == op + '=' or ups[0][2] == '=' and ups[0][3] is not None and ups[0][3][0] == 'B' and ups[0][3][1] == op)
                    rep.ob('%s/%s' % (where, v['n']), good, f.loc, 'combination', 'the levels are not combined with %s' % op)
                    rep.ob('%s/%s all' % (where, v['n']), id(nd) not in k.broken, f.loc, 'combination', 'not all levels are combined')
                rep.ob('%s/%s loop' % (where, v['n']), seen, f.loc, 'combination', 'the levels are not combined in a loop')
                n += 1
    return n


def peeled(t):
    while t is not None and t[0] in ('D', 'U') and t[0] == 'D':
        t = t[1]
    return strip(t) if t is not None else None


def related(t, level):
    """the collected value is the level reported by the constraint"""
    t, level = flat(t), flat(level)
    return t == level or t is not None and level is not None and t[0] == 'V' == level[0] and t[1] == level[1] or t is not None and mentions(t, lambda y: y == level) \
        or t is not None and t[0] == 'V' and level is not None and level[0] == 'V' and str(t[1]) == str(level[1])


# ---------------------------------------------------------------- individuals
def verdicts(prog, rep, q, level):
    n = 0
    cs = [x['n'] for x in prog.classes[q].fields if 'ValidityCheck' in str(x.get('t')) or 'onstraint' in str(x.get('t'))]
    for f in plain(prog, q):
        if f.body is None:
            continue
        where = '%s::%s' % (short(q), f.n)
        if f.n in ('isValid', 'constraintsFulfilled', 'isInValid') and not f.params:
            runs, thrown, k = run_of(prog, q, f, ())
            for x in (0, Fraction(1, 2), 1, Fraction(3, 2), 3, HI):
                leaf = lambda t: x if t == level else None
                res = {calc(r, leaf) for tr, r in runs if fits(tr, leaf)}
                want = Fraction((x <= 1) != (f.n == 'isInValid'))
                n += 1
                rep.ob(where, res == {want}, f.loc, 'verdict', 'with a level of %s the answer is wrong' % ('highest' if x == HI else float(x)))
        if f.n == 'parameterSetFulfillsConstraints':
            runs, thrown, k = run_of(prog, q, f, ('isValid', 'check'))
            out = ('P', 0, f.params[0]['n'])
            for there in (True, False):
                some = 0
                for tr, r in runs:
                    has = [e[2] if not (e[1][0] == 'B' and e[1][1] == '==') else not e[2] for e in tr if e[0] == 'br' and e[1] is not None and mentions(e[1], lambda y: own(y) and y[2] in cs) and not mentions(e[1], lambda y: y[0] == 'C' and y[1] == 'isValid')]
                    if has and has[0] != there:
                        continue
                    some += 1
                    n += 1
                    c = calls(tr, 'isValid')
                    if there:
                        good = len(c) == 1 and c[0][3] == (THIS, out) and c[0][2] is not None and mentions(c[0][2], lambda y: own(y) and y[2] in cs)
                        rep.ob(where + '/asked', good, f.loc, 'verdict', 'the constraint is not asked about this individual')
                        for v in (0, 1):
                            leaf = lambda t: v if t is not None and t[0] == 'C' and t[1] == 'isValid' else None
                            if fits(tr, leaf):
                                rep.ob(where + '/answer', calc(r, leaf) == v, f.loc, 'verdict', 'the answer of the constraint is not handed on')
                    else:
                        ss = [e for e in tr if e[0] == 'put' and e[1] == out]
                        lv = calc(ss[-1][3], lambda t: None) if ss else None
                        rep.ob(where + '/none', litbool(r) is True and lv is not None and 0 <= lv <= 1, f.loc, 'verdict', 'an individual without constraint is not valid')
                rep.ob(where + '/cases', some > 0, f.loc, 'verdict', 'individuals %s constraint are not treated' % ('with a' if there else 'without'))
        if f.n == 'registerConstraint' and f.params:
            runs, thrown, k = run_of(prog, q, f, ('clone',))
            p = ('P', 0, f.params[0]['n'])
            for tr, r in runs:
                ss = [e for e in tr if e[0] == 'put' and own(e[1]) and e[1][2] in cs]
                n += 1
                rep.ob(where, len(ss) >= 1 and mentions(ss[-1][3] or (), lambda y: y == p), f.loc, 'verdict', 'the constraint is not stored')
        if f.n in (WORST, 'getBestCase') and not f.params:
            pass                                       # C20
    return n


def lambdas_of(f):
    r = {}
    for x in walk(f.body):
        if x['k'] == 'lambda':
            r[id(x)] = x
    return r


def transformation(prog, q, f, l):
    k = Dec()
    it = Interp(prog, k, q)
    return [canon(r) for st, r in run_lambda(it, f, l, ())], ('V', l['p'][0]['id'], l['p'][0]['n']) if l['p'] else None


def sigmoid_ok(prog, q, f, t, ext, steep):
    t = flat(t)
    ls = lambdas_of(f)
    for x in subterms(t or ()):
        if x[0] == 'lam' and x[1] in ls:
            rs, p = transformation(prog, q, f, ls[x[1]])
            return bool(rs) and all(is_sigmoid(r, p, ext, steep) for r in rs)
    return any(x[0] == 'C' and 'sigmoid' in str(x[1]) for x in subterms(t or ()))


def is_sigmoid(r, p, ext, steep):
    """increasing, between the two barriers, which are approached, and dependent on the steepness"""
    if r is None:
        return False
    if r[0] == 'C' and 'sigmoid' in str(r[1]) and len(r[3]) == 3:
        return flat(r[3][0]) == p and flat(r[3][1]) == ext and flat(r[3][2]) == steep
    r = abs_(r)
    val = lambda x, e, s: calc(r, lambda t: x if t == p else e if t == ext else s if t == steep else None)
    xs = [-10 ** 9, -5, -1, 0, 1, 5, 10 ** 9]
    for e in (10, 100):
        for s in (1, 2):
            ys = [val(x, e, s) for x in xs]
            if None in ys or any(a >= b for a, b in zip(ys, ys[1:])) or not (-e < ys[0] < -e * Fraction(9, 10) and e * Fraction(9, 10) < ys[-1] < e) or ys[3] != 0:
                return False
        if val(5, e, 1) == val(5, e, 2):
            return False
    return True


def evaluation(prog, rep, q, level, enums):
    n = 0
    pol, ext, steep = field_of(prog, q, 'getEvaluationPolicy'), field_of(prog, q, 'getBarrier') or field_of(prog, q, 'getSigmoidExtremes'), field_of(prog, q, 'getSteepness')
    pe = next((e for x, e in prog.enums.items() if any(v['n'] == 'USESIGMOID' for v in e['vals'])), None)
    me = next((e for x, e in prog.enums.items() if short(x) == 'maxMode'), None)
    if pol is None or ext is None or steep is None or pe is None or me is None:
        raise AnalysisBroken('evaluation policy or its parameters not found: %s %s %s' % (pol, ext, steep))
    watch = ('fitnessCalculation', 'setAllFitnessTo', 'setResult', 'error_flagged_by_user', 'parameterSetFulfillsConstraints', WORST, 'getMaxMode', 'modifyStoredResult',
             'setTransformedFitnessToRaw', 'setTransformedFitnessWith', 'setTransformedFitnessTo', 'reset', 'markAsProcessedWith', 'mark_as_processed_with')
    for f in plain(prog, q):
        if f.body is None or f.n not in ('process_', 'setFitness_'):
            continue
        where = '%s::%s' % (short(q), f.n)
        runs, thrown, k = run_of(prog, q, f, watch, ('fitnessCalculation',))
        own_fit = f.n == 'process_'
        for tr, r in runs:
            v = [i for i, e in enumerate(tr) if e[0] == 'call' and e[1] == 'parameterSetFulfillsConstraints']
            use = [i for i, e in enumerate(tr) if e[0] == 'call' and e[1] in watch and e[1] not in (WORST, 'getMaxMode', 'parameterSetFulfillsConstraints')] + [i for i, e in enumerate(tr) if e[0] == 'br' and mentions(e[1] or (), lambda y: y == level) and not mentions(e[1], lambda y: y[0] == 'C')]
            n += 1
            rep.ob(where + '/level known', len(v) == 1 and (not use or v[0] < min(use)) and tr[v[0]][3] == (level,), f.loc, 'by-policy', 'the constraints are not checked first, with the level of this individual')
        for p in pe['vals']:
            if p['n'].endswith('_LAST'):
                continue
            for valid in (0, 1):
                for err in (0, 1):
                    for m in me['vals']:
                        for lv in ((0,) if valid else (Fraction(3, 2), HI)):
                            what = '%s, %s individual%s' % (p['n'], 'valid' if valid else 'invalid', ', error flagged' if err else '')

                            def leaf(t):
                                if t[0] == 'E':
                                    return enums.get(t[1])
                                if t == pol:
                                    return enums[pe['q'] + '::' + p['n']]
                                if t == level:
                                    return lv
                                if t[0] == 'C' and t[1] == 'parameterSetFulfillsConstraints':
                                    return valid
                                if t[0] == 'C' and t[1] == 'error_flagged_by_user':
                                    return err
                                if t[0] == 'C' and t[1] == 'getMaxMode' or own(t) and t == field_of(prog, q, 'getMaxMode'):
                                    return enums[me['q'] + '::' + m['n']]
                                if t == ext:
                                    return 10
                                if t[0] == 'C' and t[1] == WORST:
                                    return LO if m['n'] == 'MAXIMIZE' else HI
                                return None
                            ev = valid or p['n'] == 'USESIMPLEEVALUATION'
                            got = [tr for tr, r in runs if fits(tr, leaf)]
                            rep.ob(where + '/cases', bool(got), f.loc, 'by-policy', 'there is no path for: %s' % what)
                            for tr in got:
                                n += 1
                                if own_fit:
                                    c = calls(tr, 'fitnessCalculation')
                                    rep.ob(where + '/evaluated', len(c) == (1 if ev else 0), f.loc, 'by-policy', 'the evaluation function is called %d times (%s)' % (len(c), what))
                                worst = LO if m['n'] == 'MAXIMIZE' else HI
                                sign = -1 if m['n'] == 'MAXIMIZE' else 1
                                want = worst if lv == HI or p['n'] != 'USESIGMOID' else sign * lv * 10
                                if own_fit:
                                    sets = calls(tr, 'setAllFitnessTo')
                                    if ev and not err:
                                        rep.ob(where + '/kept', not sets, f.loc, 'by-policy', 'the results of a successful evaluation are overwritten (%s)' % what)
                                        res = calls(tr, 'setResult')
                                        rep.ob(where + '/stored', len(res) == 1 and res[0][3][:1] and calc(res[0][3][0], leaf) == 0 and is_call(res[0][3][1], 'fitnessCalculation'), f.loc, 'by-policy', 'the result of the evaluation is not stored')
                                    else:
                                        good = len(sets) >= 1 and calc(sets[-1][3][0], leaf) == worst
                                        rep.ob(where + '/raw', good, f.loc, 'by-policy', 'the raw fitness is not set to the worst case (%s)' % what)
                                        val = calc(sets[-1][3][-1], leaf) if sets else None
                                        w = worst if ev else want
                                        rep.ob(where + '/transformed', val == w, f.loc, 'by-policy', 'the fitness becomes %s (%s, %s, level %s)' % (num(val), what, m['n'], num(lv)))
                                        if sets:
                                            after = tr[tr.index(sets[-1]):]
                                            rep.ob(where + '/last', not calls(after, 'setResult', 'setTransformedFitnessToRaw', 'setTransformedFitnessWith', 'reset'), f.loc, 'by-policy', 'the worst case is overwritten')
                                else:
                                    mk = calls(tr, 'markAsProcessedWith', 'mark_as_processed_with')
                                    rep.ob(where + '/marked', len(mk) == 1, f.loc, 'by-policy', 'the results are not handed over (%s)' % what)
                                    if mk and not ev:
                                        vals = [y for y in subterms(mk[-1][3][0] if mk[-1][3] else ()) if y[0] in ('K', 'N') and 'parameterset_processing_result' in str(y[1]) and 'vector' not in str(y[1]) and len(y[2]) == 2]
                                        good = len(vals) == 1 and calc(vals[0][2][0], leaf) == worst and calc(vals[0][2][1], leaf) == want
                                        rep.ob(where + '/transformed', good, f.loc, 'by-policy', 'the fitness becomes %s (%s, %s, level %s)' % (num(calc(vals[0][2][1], leaf)) if vals else '?', what, m['n'], num(lv)))
                            # how the results are transformed
                            if not ev or err and own_fit:
                                continue
                            some = False
                            for nd, pre, body in k.full:
                                if not fits(pre + body, leaf) or not calls(body, 'setTransformedFitnessToRaw', 'setTransformedFitnessWith', 'setTransformedFitnessTo'):
                                    continue
                                some = True
                                c = calls(body, 'setTransformedFitnessToRaw', 'setTransformedFitnessWith', 'setTransformedFitnessTo')
                                sig = p['n'] == 'USESIGMOID'
                                rep.ob(where + '/transformation', len(c) == 1 and (c[0][1] != 'setTransformedFitnessToRaw') == sig, f.loc, 'by-policy', 'the sigmoid function is %s (%s)' % ('not applied' if sig else 'applied', what))
                                if sig and c and c[0][1] != 'setTransformedFitnessToRaw':
                                    rep.ob(where + '/sigmoid', sigmoid_ok(prog, q, f, c[0][3][0], ext, steep), f.loc, 'by-policy', 'the transformation does not use barrier and steepness of the individual')
                                rep.ob(where + '/all results', k.coverage(nd) is not None or nd['k'] == 'forrange' and id(nd) not in k.broken, f.loc, 'by-policy', 'not all results are transformed')
                                if not own_fit:
                                    rs = calls(body, 'reset')
                                    rep.ob(where + '/raw given', len(rs) == 1 and mentions(rs[0][3][0], lambda y: y == ('P', 0, f.params[0]['n'])) and body.index(rs[0]) < body.index(c[0]), f.loc, 'by-policy', 'the given fitness is not stored before it is transformed')
                            rep.ob(where + '/transformed results', some, f.loc, 'by-policy', 'the results are not transformed (%s)' % what)
        for tr, ty in thrown:
            c = calls(tr, 'fitnessCalculation')
            if not c or ty is None or 'std::exception' not in str(ty):
                continue
            after = tr[tr.index(c[-1]):]
            s = calls(after, 'setAllFitnessTo')
            n += 1
            rep.ob(where + '/failed', len(s) == 1 and is_call(s[0][3][0], WORST) and is_call(s[0][3][-1], WORST), f.loc, 'by-policy', 'after a failed evaluation the results are not the worst case')
        if own_fit:
            rep.ob(where + '/failures reported', any(calls(tr, 'fitnessCalculation') for tr, ty in thrown), f.loc, 'by-policy', 'an exception of the evaluation function is swallowed')
            swallowed = [tr for tr, r in runs if calls(tr, 'fitnessCalculation') and not calls(tr, 'setResult')]
            rep.ob(where + '/failures reported', not swallowed, f.loc, 'by-policy', 'an exception of the evaluation function is swallowed')
    return n


def num(x):
    return '?' if x is None else 'the worst or best case' if abs(x) > 10 ** 100 else '%g' % float(x)


# ---------------------------------------------------------------- results
def results(prog, rep, q):
    """raw and transformed value of a result are set together"""
    n = 0
    raw, tra, ok = (field_of(prog, q, x) for x in ('rawFitness', 'transformedFitness', 'transformedFitnessSet'))
    if raw is None or tra is None:
        raise AnalysisBroken('raw or transformed fitness of %s not found' % short(q))
    for f in plain(prog, q):
        if f.body is None or not (f.n.startswith('setTransformed') or f.n == 'reset'):
            continue
        where = '%s::%s/%d%s' % (short(q), f.n, len(f.params), 'f' if f.params and 'function' in str(f.params[-1].get('t')) else '')
        runs, thrown, k = run_of(prog, q, f, ())
        ps = [('P', i, p['n']) for i, p in enumerate(f.params)]
        fn = ps[-1] if ps and 'function' in str(f.params[-1].get('t')) else None
        for tr, r in runs:
            n += 1
            last = {}
            for e in tr:
                if e[0] == 'put' and own(e[1]):
                    v = e[3]
                    last[e[1]] = sub(v, last)
            rw = last.get(raw, raw)
            if f.n == 'reset':
                rep.ob(where + '/raw', flat(rw) == ps[0], f.loc, 'results', 'the raw fitness is not the given one')
            else:
                rep.ob(where + '/raw', raw not in last, f.loc, 'results', 'the raw fitness is changed')
            t = flat(last.get(tra, tra))
            if fn is not None:
                good = t is not None and t[0] == 'C' and t[2] is not None and mentions(t, lambda y: y == fn) and len(t[3]) == 1 and flat(t[3][0]) in (rw, flat(rw))
            elif f.n == 'reset' and len(ps) == 2:
                good = t == ps[1]
            elif f.n.endswith('Raw') or f.n == 'reset':
                good = t == flat(rw)
            else:
                good = t == ps[0]
            rep.ob(where + '/transformed', good, f.loc, 'results', 'the transformed fitness is not derived from the raw fitness as requested')
            if ok is not None:
                want = not (f.n == 'reset' and len(ps) == 1)
                rep.ob(where + '/available', litbool(last.get(ok)) is want, f.loc, 'results', 'the transformed fitness is %s' % ('not marked as available' if want else 'marked as available'))
    return n


def all_results(prog, rep, q):
    """setting and reading the results of an individual"""
    n = 0
    for f in plain(prog, q):
        if f.body is None:
            continue
        where = '%s::%s/%d' % (short(q), f.n, len(f.params))
        ps = [('P', i, p['n']) for i, p in enumerate(f.params)]
        if f.n == 'setAllFitnessTo':
            runs, thrown, k = run_of(prog, q, f, ('modifyStoredResult', 'reset', 'setTransformedFitnessTo', 'setTransformedFitnessToRaw'))
            acts = [(nd, pre, body) for nd, pre, body in k.full if calls(body, 'reset')]
            n += 1
            rep.ob(where + '/loop', bool(acts), f.loc, 'results', 'the results are not set in a loop')
            for nd, pre, body in acts:
                rep.ob(where + '/all', k.coverage(nd) is not None, f.loc, 'results', 'not all results are set')
                rs = calls(body, 'reset')
                ts = calls(body, 'setTransformedFitnessTo')
                rep.ob(where + '/raw', len(rs) == 1 and flat(rs[0][3][0]) == ps[0], f.loc, 'results', 'the raw fitness is not the given one')
                t = flat(ts[-1][3][0]) if ts and body.index(ts[-1]) > body.index(rs[0]) else flat(rs[0][3][1]) if rs and len(rs[0][3]) > 1 else flat(rs[0][3][0]) if calls(body, 'setTransformedFitnessToRaw') else None
                rep.ob(where + '/transformed', t == ps[-1], f.loc, 'results', 'the transformed fitness is not the given one')
                ids = [e[3][0] for e in calls(body, 'modifyStoredResult')]
                rep.ob(where + '/each', len(set(ids)) <= 1, f.loc, 'results', 'different results are set')
        if f.n in ('raw_fitness_', 'transformed_fitness_') and len(f.params) == 1:
            runs, thrown, k = run_of(prog, q, f, ('getStoredResult', 'rawFitness', 'transformedFitness', 'minOnly_transformed_fitness'))
            want = 'rawFitness' if f.n == 'raw_fitness_' else 'transformedFitness'
            for tr, r in runs:
                n += 1
                c = calls(tr, 'getStoredResult')
                rep.ob(where, r is not None and r[0] == 'C' and r[1] == want and len(c) == 1 and flat(c[0][3][0]) == ps[0], f.loc, 'results', 'another value is handed out')
    return n


def sub(t, m):
    if not isinstance(t, tuple):
        return t
    if t in m:
        return m[t]
    return tuple(sub(x, m) for x in t)


def combiners(prog, rep, q):
    """sums over all results"""
    n = 0
    for f in plain(prog, q):
        if f.body is None or not f.n.endswith('Combiner') or not str(f.d.get('ret')).endswith('double'):
            continue
        if not any(x['k'] in ('for', 'forrange', 'while') for x in walk(f.body)):
            continue
        where = '%s::%s' % (short(q), f.n)
        runs, thrown, k = run_of(prog, q, f, ('transformed_fitness',))
        for nd, pre, body in k.full:
            n += 1
            c = calls(body, 'transformed_fitness')
            rep.ob(where + '/each', len(c) >= 1, f.loc, 'combined-results', 'the results are not looked at')
            rep.ob(where + '/all', k.coverage(nd) is not None, f.loc, 'combined-results', 'not all results are combined')
            ups = [b for b in body if b[0] == 'put' and b[2] == '+=' and not (b[3] is not None and b[3][0] == 'L' and k.coverage(nd) is not None and b[1] is not None and b[1][0] == 'V' and b[1][1] == k.coverage(nd)[1]) or b[0] == 'put' and b[2] == '=' and b[3] is not None and b[3][0] == 'B' and b[3][1] == '+' and b[1] is not None and b[1][0] == 'V' and mentions(b[3], lambda y: y[0] == 'C' and y[1] == 'transformed_fitness')]
            good = len(ups) == 1
            if good:
                add = ups[0][3]
                fs = [y for y in subterms(add) if y[0] == 'C' and y[1] == 'transformed_fitness']
                sq = 'quared' in f.n
                if sq:
                    good = len(fs) == 2 or any(y[0] == 'C' and y[1] in ('pow', 'gpow', 'GSQUARED') for y in subterms(add))
                elif 'fabs' in f.n:
                    good = any(y[0] == 'C' and y[1] in ('fabs', 'gfabs', 'abs') for y in subterms(add))
                else:
                    good = len(fs) == 1
                if f.params:
                    good = good and mentions(add, lambda y: y == ('P', 0, f.params[0]['n']) or y[0] == 'elem' or y[0] == 'X')
            rep.ob(where + '/operation', good, f.loc, 'combined-results', 'the results are not summed up as the name says')
        for tr, r in runs:
            if 'quared' in f.n:
                rep.ob(where + '/root', r is not None and r[0] == 'C' and r[1] in ('sqrt', 'gsqrt'), f.loc, 'combined-results', 'the root is not taken')
    return n


def run25(prog, rep):
    enums = enum_leaf(prog)
    base = [q for q in prog.classes if any(f.n == 'check' and f.body is not None for f in plain(prog, q)) and any(f.n == 'isValid' and len(f.params) == 2 for f in plain(prog, q))]
    if len(base) != 1:
        raise AnalysisBroken('the base class of constraints was not found')
    rep.floor('decisions about single constraints', single(prog, rep, base[0]), 10)
    m = sum(combined(prog, rep, q, enums) for q in sorted(prog.classes) if base[0] in prog.bases_of(q))
    rep.floor('decisions about combined constraints', m, 3)
    inds = [q for q in prog.classes if any(f.n == 'parameterSetFulfillsConstraints' and f.body is not None for f in plain(prog, q))]
    if len(inds) != 1:
        raise AnalysisBroken('the class of individuals was not found')
    level = field_of(prog, inds[0], 'getValidityLevel')
    if level is None:
        raise AnalysisBroken('the level of validity was not found')
    a = verdicts(prog, rep, inds[0], level)
    b = evaluation(prog, rep, inds[0], level, enums)
    rs = [q for q in prog.classes if short(q) == 'parameterset_processing_result']
    c = sum(results(prog, rep, q) for q in rs)
    c += all_results(prog, rep, inds[0])
    d = combiners(prog, rep, inds[0])
    rep.floor('verdicts', a, 8)
    rep.floor('evaluations', b, 10)
    rep.floor('functions setting results', c, 3)
    for x, v in (('verdicts', a), ('evaluations', b), ('results', c), ('combiners', d), ('combinations', m)):
        rep.stat(x, v)


register('C25', run25, 'all',
         'decision tables of validity levels, verdicts, combinations and evaluation policies; value flow of raw and transformed results',
         'Each function is turned into a table over the raw value, the switch for negative values, the policy, validity, direction and user errors by symbolic evaluation of all its paths, and compared with the specification. '
         'Loops over constraints and results must cover all of them.')
