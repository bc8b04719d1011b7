"""The comparison kernel (C03): every compare() overload, compare_t/compare_base_t, identity and GToken
are evaluated abstractly for every expectation and every relation the two operands can have."""
from facts import walk, kids, AnalysisBroken
from flow import *
from rules.matrix import short

X, Y, EXP = ('P', 0), ('P', 1), ('P', 4)
VIOL = 'Gem::Common::g_expectation_violation'


def roots(t):
    r = set()
    for y in subterms(t):
        if y[0] == 'P' and y[1] in (0, 1):
            r.add(y[1])
    return r


def has(t, names):
    return any(y[0] == 'C' and y[1] in names for y in subterms(t))


def elementwise(t):
    return any(y[0] in ('elem', 'X') or (y[0] == 'C' and y[1] in ('at', '[]', 'front', 'back', 'operator[]')) for y in subterms(t))


class Scenario:
    """whole: 'same'|'similar'|'diff'; ptr: (x set?, y set?) ; size: sizes equal ; elems: list of (verdict, xset, yset)"""

    def __init__(s, name, whole, ptr=(True, True), size=True, elems=()):
        s.name = name; s.whole = whole; s.ptr = ptr; s.size = size; s.elems = list(elems)


class KernelClient(Client):
    max_states = 3000
    keep_bools = True

    def __init__(self, sc, e):
        self.sc = sc; self.e = e; self.consulted = 0

    def relevant(self, f):
        return f.cls is None and f.n not in ('compare',) and 'GExpectationChecks' in f.file

    def cur(self, st, t):
        """(verdict, xset, yset) the term's level refers to"""
        if elementwise(t) and self.sc.elems:
            i = max(0, min(st.cl[0], len(self.sc.elems)) - 1)
            return self.sc.elems[i]
        return (self.sc.whole, self.sc.ptr[0], self.sc.ptr[1])

    def verdict_compare(self, ev, st):
        """does x.compare(y, e, ..) throw"""
        e = next((a for a in ev.args if a is not None and (a[0] == 'E')), None)
        allr = set()
        for a in list(ev.args) + [ev.base]:
            if a is not None:
                allr |= roots(a)
        if e is None or allr != {0, 1}:
            return None
        t = ev.base
        v = self.cur(st, t)[0]
        nm = e[1].split('::')[-1]
        if nm == 'INEQUALITY':
            return v == 'same'
        return v != 'same'

    def may_throw(self, ev, st):
        if ev.name == 'compare' and ev.base is not None:
            v = self.verdict_compare(ev, st)
            if v is None or v:
                return [VIOL]
        return ()

    def must_throw(self, ev, st):
        if ev.name == 'compare' and ev.base is not None:
            return bool(self.verdict_compare(ev, st))
        return False

    def answer(self, t, st):
        rs = roots(t)
        if not rs:
            return None
        sc = self.sc
        if t[0] == 'B' and t[1] in ('==', '<'):
            a, b = t[2], t[3]
            # loop control
            if self.is_loopctl(t):
                n = len(sc.elems)
                return (st.cl[0] >= n) if t[1] == '==' else (st.cl[0] < n)
            if rs == {0, 1}:
                ra, rb = roots(a), roots(b)
                if has(t, ('fabs', 'gfabs', 'abs', 'fabsf', 'fabsl')):
                    v = self.cur(st, t)[0]
                    lhs_abs = has(a, ('fabs', 'gfabs', 'abs')) and roots(a)
                    if t[1] == '<':
                        near = v in ('same', 'similar')
                        return near if lhs_abs else (not near)
                    return None
                if t[1] == '==' and ra != rb and len(ra) == 1 and len(rb) == 1:
                    if has(t, ('size', 'distance', 'length')):
                        return sc.size
                    return self.cur(st, t)[0] == 'same'
                return None
            if rs in ({0}, {1}):
                # tests of one operand only, e.g. a position against end(), size against a literal
                return None
        if t[0] == 'C' and t[1] == 'indeterminate':
            return False
        if t[0] == 'C' and t[1] == 'empty':
            return len(sc.elems) == 0
        if t[0] == 'C' and t[1] in ('equal', 'operator==', '==') and rs == {0, 1}:
            return sc.whole == 'same'
        if t[0] in ('P', 'elem', 'X', 'F') or (t[0] == 'C' and t[1] in ('get', 'front', 'back', 'at')):
            if len(rs) == 1:
                v = self.cur(st, t)
                return v[1] if rs == {0} else v[2]
        return None

    def is_loopctl(self, t):
        """position against the end of the container"""
        a, b = t[2], t[3]
        if t[1] == '==':
            for p, q in ((a, b), (b, a)):
                if q is not None and q[0] == 'C' and q[1] in ('end', 'cend') and p is not None and p[0] == 'elem':
                    return True
        if t[1] == '<' and b is not None and b[0] == 'C' and b[1] == 'size' and a is not None and a[0] == 'V':
            return True
        return False

    def branch(self, t, truth, st, node, func):
        a = self.answer(t, st)
        if a is None:
            return st
        self.consulted += 1
        return st if a == truth else None

    def event(self, ev, st):
        if ev.kind == 'iter':
            return [st.w(cl=(st.cl[0] + 1,) + st.cl[1:], facts={})]
        if ev.kind == 'loopexit':
            return [st.w(cl=(0,) + st.cl[1:])]
        return None


def scenarios(f):
    t = f.params[0]['t']
    sig = ' '.join(p['t'] for p in f.params)
    fp = 'enable_if<std::is_floating_point' in sig
    ptr = 'shared_ptr' in t
    cont = 'allocator' in t
    out = []
    if cont:
        mk = [('same', True, True), ('diff', True, True)]
        if fp:
            mk.append(('similar', True, True))
        if ptr:
            mk += [('same', False, False), ('diff', True, False), ('diff', False, True)]
        out.append(Scenario('both empty', 'same'))
        out.append(Scenario('different sizes', 'diff', size=False, elems=[('same', True, True)]))
        for a in mk:
            for b in mk:
                w = 'same' if a[0] == b[0] == 'same' else ('diff' if 'diff' in (a[0], b[0]) else 'similar')
                out.append(Scenario('two elements: %s, %s' % (nm(a), nm(b)), w, elems=[a, b]))
    elif ptr:
        out = [Scenario('both null', 'same', (False, False)), Scenario('only the second null', 'diff', (True, False)), Scenario('only the first null', 'diff', (False, True)),
               Scenario('equal pointees', 'same'), Scenario('different pointees', 'diff')]
    elif 'tribool' in t:
        # x == true and x == false share one canonical condition, so the indeterminate state is not enumerated
        out = [Scenario('true/true', 'same', (True, True)), Scenario('false/false', 'same', (False, False)), Scenario('true/false', 'diff', (True, False)), Scenario('false/true', 'diff', (False, True))]
    else:
        out = [Scenario('equal', 'same'), Scenario('different', 'diff')]
        if fp:
            out.append(Scenario('different by less than the limit', 'similar'))
    return out


def nm(a):
    return {(True, True): a[0], (False, False): 'both null', (True, False): 'second null', (False, True): 'first null'}[(a[1], a[2])]


def expected(sc, e):
    if e == 'EQUALITY':
        return sc.whole == 'same'
    if e == 'FP_SIMILARITY':
        return sc.whole in ('same', 'similar')
    return sc.whole != 'same'


def run(prog, rep):
    enum = next((q for q in prog.enums if q.endswith('Common::expectation')), None)
    if not enum:
        raise AnalysisBroken('enumeration expectation not found')
    names = [x['n'] for x in prog.enums[enum]['vals']]
    cmps = [f for f in prog.funcs if f.n == 'compare' and f.cls is None and len(f.params) >= 5 and 'expectation' in f.params[4]['t'] and f.body]
    rep.floor('compare overloads', len(cmps), 12)
    ncase = 0
    for f in cmps:
        tag = 'compare(%s)' % f.params[0]['t'].replace('const ', '').replace(' &', '')
        if 'enable_if<std::is_floating_point' in ' '.join(p['t'] for p in f.params):
            tag += '[fp]'
        for e in names:
            for sc in scenarios(f):
                C = KernelClient(sc, e)
                args = [None] * len(f.params)
                args[4] = ('E', enum + '::' + e)
                it = Interp(prog, C, None)
                normal, thrown = it.run(f, (0,), args=args)
                ncase += 1
                exp = expected(sc, e)
                bad = None
                if exp and thrown:
                    bad = 'throws'
                elif exp and not normal:
                    bad = 'never returns'
                elif not exp and normal:
                    bad = 'accepts the operands'
                elif not exp and any(short(ty) != 'g_expectation_violation' for _, ty, _ in thrown):
                    bad = 'does not report the violation as g_expectation_violation'
                rep.ob('%s:%s:%s' % (tag, e, sc.name), bad is None, f.loc, 'comparison kernel decides each relation of operands correctly',
                       'expectation %s, operands %s: %s although the expectation is %s' % (e, sc.name, bad, 'met' if exp else 'violated'))
    rep.stat('kernel_cases', ncase)
    wrappers(prog, rep)
    token(prog, rep, enum, names)


class WrapClient(Client):
    """compare_t / compare_base_t"""

    def __init__(self, mode):
        self.mode = mode; self.calls = []

    def thrown_type(self):
        return {'violation': VIOL, 'other': 'std::runtime_error'}.get(self.mode)

    def hit(self, ev):
        return ev.kind == 'call' and ev.name in ('compare', 'compare_') and len(ev.args) >= 2

    def relevant(self, f):
        return f.n not in ('compare', 'compare_', 'incrTestCounter', 'incrSuccessCounter', 'registerErrorMessage', 'getExpectation') and 'GExpectationChecks' in f.file

    def may_throw(self, ev, st):
        return [self.thrown_type()] if self.hit(ev) and self.mode != 'ok' else ()

    def must_throw(self, ev, st):
        return self.hit(ev) and self.mode != 'ok'

    def event(self, ev, st):
        if ev.kind != 'call':
            return None
        c = dict(zip(('test', 'succ', 'err', 'cmp'), st.cl))
        if ev.name == 'incrTestCounter':
            c['test'] += 1
        elif ev.name == 'incrSuccessCounter':
            c['succ'] += 1
        elif ev.name == 'registerErrorMessage':
            c['err'] += 1
        elif self.hit(ev):
            c['cmp'] += 1
            self.calls.append(ev)
        else:
            return None
        return [st.w(cl=(c['test'], c['succ'], c['err'], c['cmp']))]


def exp_field(prog):
    cls = next(c for q, c in prog.classes.items() if short(q) == 'GToken')
    return next((x['n'] for x in cls.fields if 'expectation' in x['t']), None)


def wrappers(prog, rep):
    ef = exp_field(prog)
    fs = [f for f in prog.funcs if f.n in ('compare_t', 'compare_base_t') and f.cls is None and f.body]
    rep.floor('comparison wrappers', len(fs), 2)
    for f in fs:
        for mode in ('ok', 'violation', 'other'):
            C = WrapClient(mode)
            it = Interp(prog, C, None)
            normal, thrown = it.run(f, (0, 0, 0, 0))
            bad = None
            if mode == 'other':
                if normal:
                    bad = 'an exception other than a violated expectation is swallowed'
            else:
                if thrown:
                    bad = 'leaves by exception'
                for st, _ in normal:
                    t, s, er, c = st.cl
                    if c != 1:
                        bad = 'the comparison is carried out %d times' % c
                    elif t != 1:
                        bad = 'the test counter is incremented %d times' % t
                    elif s != (1 if mode == 'ok' else 0):
                        bad = 'the success counter is incremented %d times' % s
            rep.ob('%s:%s' % (f.n, mode), bad is None, f.loc, 'each comparison counts as one test and as a success iff it did not violate the expectation', '%s (%s): %s' % (f.n, {'ok': 'comparison succeeds', 'violation': 'comparison reports a violation', 'other': 'comparison fails with another exception'}[mode], bad))
        # operands and expectation handed through
        C = WrapClient('ok')
        Interp(prog, C, None).run(f, (0, 0, 0, 0))
        for ev in C.calls:
            al = [stripall(a) if a is not None else None for a in ([ev.base] if ev.base is not None else []) + list(ev.args)]
            ops = [a for a in al[:2]]
            distinct = ops[0] is not None and ops[1] is not None and ops[0] != ops[1] and all(any(y[0] == 'P' for y in subterms(o)) for o in ops)
            tok = any(a is not None and ((a[0] == 'C' and a[1] == 'getExpectation') or (a[0] == 'F' and a[2] == ef)) for a in al)
            rep.ob('%s:operands' % f.n, distinct, ev.loc, 'both operands take part in the comparison', 'the comparison is called with %s' % ', '.join(tshow(a) for a in al))
            rep.ob('%s:expectation' % f.n, tok, ev.loc, 'the expectation of the token is used', 'the comparison is not called with the expectation of the token')


class TokClient(Client):
    def __init__(self, tests, succ):
        self.v = {'TESTCOUNTER': tests, 'SUCCESSCOUNTER': succ, '0': tests, '1': succ}

    def relevant(self, f):
        return f.cls is not None and short(f.cls) == 'GToken' and f.n not in ('toString',)

    def num(self, t):
        t = strip(t)
        if t is None:
            return None
        if t[0] == 'L' and t[1] == 'int':
            return int(t[2])
        if t[0] == 'X' and t[2] is not None and t[2][0] == 'L':
            return self.v.get(str(t[2][2]).split('::')[-1])
        if t[0] == 'C' and t[1] in ('getTestCounter', 'getSuccessCounter'):
            return self.v['TESTCOUNTER' if t[1] == 'getTestCounter' else 'SUCCESSCOUNTER']
        return None

    def branch(self, t, truth, st, node, func):
        if t[0] == 'B' and t[1] in ('==', '<'):
            a, b = self.num(t[2]), self.num(t[3])
            if a is not None and b is not None:
                r = (a == b) if t[1] == '==' else (a < b)
                return st if r == truth else None
        return st

    def event(self, ev, st):
        return None


def token(prog, rep, enum, names):
    ms = {f.n: f for f in prog.funcs if f.cls and short(f.cls) == 'GToken' and f.body}
    for n in ('evaluate', 'expectationMet', 'incrTestCounter', 'incrSuccessCounter'):
        if n not in ms:
            raise AnalysisBroken('GToken::%s not found' % n)
    f = ms['evaluate']
    # the member holding the expectation: the field of the enumeration's type
    ef = exp_field(prog)
    if ef is None:
        raise AnalysisBroken('GToken holds no expectation')
    for e in names:
        for tests, succ in ((0, 0), (2, 2), (2, 1), (2, 0)):
            if tests == 0 and e == 'INEQUALITY':
                pass
            exp = (succ > 0) if e == 'INEQUALITY' else (tests == succ)
            C = TokClient(tests, succ)

            class It(Interp):
                def e_member(self, n, st, _e=e):
                    r = Interp.e_member(self, n, st)
                    return [(x, ('E', enum + '::' + _e) if t == ('F', THIS, ef) else t) for x, t in r]
            normal, thrown = It(prog, C, f.cls).run(f, ())
            bad = 'throws' if exp and thrown else 'does not throw' if (not exp and normal) else 'never returns' if exp and not normal else None
            rep.ob('GToken::evaluate:%s:%d of %d' % (e, succ, tests), bad is None, f.loc, 'the verdict over all member comparisons', '%d of %d comparisons met expectation %s: evaluate() %s' % (succ, tests, e, bad))
    # the counters are incremented by one
    for n, idx in (('incrTestCounter', ('TESTCOUNTER', '0')), ('incrSuccessCounter', ('SUCCESSCOUNTER', '1'))):
        f = ms[n]
        hits = []

        class Cn(Helpers):
            def event(self, ev, st):
                if ev.kind in ('assign', 'incdec') and ev.lhs is not None and ev.lhs[0] == 'X':
                    hits.append((str(ev.lhs[2][2]).split('::')[-1], ev.op, ev.rhs))
                return None
        Interp(prog, Cn(prog, f.cls), f.cls).run(f, ())
        ok = len(hits) == 1 and hits[0][0] in idx
        rep.ob('GToken::%s' % n, ok, f.loc, 'counter bookkeeping', '%s does not increment its counter exactly once' % n)
