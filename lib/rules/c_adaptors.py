"""C24: adaptors keep their parameters in range, adapt when they should, and change values with the widths they were given."""
from facts import walk, AnalysisBroken
from flow import *
from rules.registry import register
from rules.matrix import short
from rules.c_workers import plain, calls_in
from rules.c_broker import Rec
from rules.c_ranking import canon, calc
from rules.c_run import field_of
from rules.c_settings import peel, own

BASE = 'GAdaptorT'
SKIP = ('load_', 'serialize', 'compare_', 'clone_', 'printDiagnostics')
TIGHT = ('enforceRangeConstraint',)


def test_code(n):
    return 'GUnitTests' in n


def flat(t):
    """the quantity behind conversions, absolute values and numeric casts"""
    t = peel(t)
    while t is not None and t[0] == 'C' and t[1] in ('gfabs', 'fabs', 'abs', 'numeric_cast', 'Abs') and t[3]:
        t = peel(t[3][0])
    return t


def zero(t):
    t = flat(t)
    return t is not None and t[0] == 'L' and str(t[2]).rstrip('.0fFL') in ('', '0', '-') or t is not None and t[0] == 'L' and str(t[2]) in ('0', '0.', '0.0')


def draws(t):
    """(kind of distribution, its parameters) of all random numbers in a term"""
    res = []
    if t is None:
        return res
    for y in subterms(t):
        if y[0] in ('K', 'N') and 'param_type' in str(y[1]):
            res.append((str(y[1]), tuple(flat(a) for a in y[2])))
    return res


def copied(n):
    """the first argument of the call is a local variable of its own"""
    a = (n.get('a') or [None])[0]
    return bool(a) and a.get('k') == 'ref' and a.get('rk') == 'local' and '&' not in (a.get('t') or '')


class AdC(Client):
    """cl = sequence of stores, range checks and decisions"""
    max_depth = 4
    max_states = 3000

    def __init__(self, hier, opaque=()):
        self.hier, self.opaque = hier, set(opaque)
        self.bodies = []

    def relevant(self, f):
        return f.body is not None and f.cls in self.hier and f.n not in self.opaque

    def resolve(self, it, ev):
        return False if ev.name in self.opaque else None

    def event(self, ev, st):
        r = None
        if ev.kind in ('assign', 'init') and ev.lhs is not None:
            r = ('set', canon(ev.lhs), ev.op if ev.kind == 'assign' else '=', canon(ev.rhs))
        elif ev.kind == 'un' and ev.lhs is not None:
            r = ('set', canon(ev.lhs), ev.op, None)
        elif ev.kind == 'call' and ev.name in TIGHT and len(ev.args) >= 3:
            r = ('enforce',) + tuple(canon(a) for a in ev.args[:3])
        elif ev.kind == 'call' and ev.name in ('push_back', 'emplace_back') and ev.args:
            r = ('push', canon(ev.base), canon(ev.args[0]))
        elif ev.kind == 'call' and ev.name in self.opaque:
            r = ('call', ev.name, tuple(canon(a) for a in ev.args), copied(ev.node))
        elif ev.kind in ('iter', 'loopexit'):
            n = id(ev.node)
            tr = st.cl
            start = max([i for i, x in enumerate(tr) if x == ('loop', n)], default=None)
            if start is not None:
                self.bodies.append((n, tr[start + 1:]))
                tr = tr[:start]
            if ev.kind == 'iter':
                tr = tr + (('loop', n),)
            else:
                tr = tr + (('over', n),)
            return [st.w(cl=tr)]
        if r is None or r in st.cl[-1:] and r[0] == 'set' and r[2] == '=':
            return None
        return [st.w(cl=st.cl + (r,))]

    def branch(self, t, truth, st, node, func):
        old = any(x.get('k') == 'un' and x.get('op') in ('++', '--') and x.get('post') for x in walk(node)) if node else False
        r = ('br', canon(t), truth, t, old)
        if r in st.cl:
            return st
        return st.w(cl=st.cl + (r,))


def trace(prog, q, f, opaque=()):
    k = AdC({q} | set(prog.bases_of(q)), opaque)
    out, thrown = Interp(prog, k, q).run(f, ())
    return [(st.cl, canon(r), st) for st, r in out], [(st.cl, ty) for st, ty, n in thrown], k


# ---------------------------------------------------------------- ranges
def ranges(prog, q):
    """[(name, lower, upper)] according to the getters"""
    res = []
    for f in plain(prog, q):
        if f.n.startswith('get') and f.n.endswith('Range') and not f.params:
            for tr, r, st in trace(prog, q, f)[0]:
                fs = []
                for y in subterms(r or ()):
                    if own(y) and y not in fs:
                        fs.append(y)
                if len(fs) == 2:
                    ordered = sorted(fs, key=lambda x: order(r, x))
                    res.append((f.n[3:-5], ordered[0], ordered[1]))
                break
    return res


def order(t, x):
    """position of x in the arguments of t"""
    a = t[3] if t[0] == 'C' else t[2] if t[0] in ('K', 'N') else ()
    if a and len(a) == 1:
        return order(a[0], x)
    for i, y in enumerate(a):
        if isinstance(y, tuple) and mentions(y, lambda z: z == x):
            return i
    return 99


def controlled(prog, q, fs, name, lo, hi):
    """the data members which have to stay within lo and hi"""
    vs = set()
    v = field_of(prog, q, 'get' + name)
    if v is not None:
        vs.add(v)
    for f in fs:
        if test_code(f.n) or f.n in SKIP or f.body is None:
            continue
        try:
            runs, thrown, k = trace(prog, q, f, ('customAdaptions', 'customAdaptAdaption'))
        except AnalysisBroken:
            continue
        for tr, r, st in runs:
            for i, e in enumerate(tr):
                if e[0] == 'enforce' and own(e[1]) and mentions(e[2], lambda y: y == lo) and mentions(e[3], lambda y: y == hi):
                    vs.add(e[1])
                if e[0] == 'set' and own(e[1]) and e[3] is not None and flat(e[3])[0] == 'P' and compliant(tr[:i], flat(e[3]), lo, hi):
                    vs.add(e[1])
    return vs


def compliant(tr, x, lo, hi):
    """x was found to be within lo and hi"""
    low = up = False
    for e in tr:
        if e[0] == 'set' and e[1] in (lo, hi, x):
            low = up = False
        if e[0] != 'br':
            continue
        t, v = e[1], e[2]
        if t is None:
            continue
        if t[0] == 'C' and t[1] == 'checkRangeCompliance' and len(t[3]) >= 3 and v is True:
            if flat(t[3][0]) == x and flat(t[3][1]) == lo and flat(t[3][2]) == hi:
                low = up = True
        if t[0] == 'B' and t[1] == '<':
            a, b = flat(t[2]), flat(t[3])
            if v is False and a == x and b == lo or v is True and a == lo and b == x:
                low = True
            if v is False and a == hi and b == x or v is True and a == x and b == hi:
                up = True
        if t[0] == 'B' and t[1] == '<=':
            a, b = flat(t[2]), flat(t[3])
            if v is True and a == lo and b == x or v is False and a == x and b == lo:
                low = True
            if v is True and a == x and b == hi or v is False and a == hi and b == x:
                up = True
    return low and up


def in_range(tr, vs, lo, hi):
    """data members which may be outside of the range at the end of the path"""
    bad = {}
    for i, e in enumerate(tr):
        if e[0] == 'enforce' and e[1] in vs:
            okay = (flat(e[2]) == lo or flat(e[2]) is not None and flat(e[2])[0] == 'C' and flat(e[2])[1] in ('gmax', 'max') and any(flat(a) == lo for a in flat(e[2])[3])) and flat(e[3]) == hi
            if okay:
                bad.pop(e[1], None)
            else:
                bad[e[1]] = i
        if e[0] != 'set':
            continue
        if e[1] in (lo, hi):
            for v in vs:
                bad[v] = i
        elif e[1] in vs:
            x = flat(e[3]) if e[3] is not None else None
            good = False
            if e[2] == '=' and x is not None:
                if x in (lo, hi):
                    good = True
                elif x in vs:
                    good = x not in bad
                elif x[0] == 'C' and x[1] in TIGHT and len(x[3]) >= 3:
                    good = flat(x[3][1]) == lo and flat(x[3][2]) == hi
                elif x[0] == 'P' or x[0] == 'V':
                    good = compliant(tr[:i], x, lo, hi)
                elif any('uniform' in k and a == (lo, hi) for k, a in draws(x)) and x[0] == 'C':
                    good = True
            if good:
                bad.pop(e[1], None)
            else:
                bad[e[1]] = i
    return {v for v, i in bad.items() if not compliant(tr[i + 1:], v, lo, hi)}


def calls_of(g):
    if g.body is None:
        return ()
    return {(x.get('f') or {}).get('n') or x.get('n') for x in walk(g.body) if x['k'] == 'call'}


def keep_ranges(prog, rep, q):
    n = 0
    fs = plain(prog, q)
    for name, lo, hi in ranges(prog, q):
        vs = controlled(prog, q, fs, name, lo, hi)
        if not vs:
            rep.ob('%s/%s' % (short(q), name), False, fs[0].loc, 'range-enforced', 'nothing is kept within the range')
            continue
        for f in fs:
            if test_code(f.n) or f.n in SKIP or f.body is None or f.d.get('cm') in ('copy', 'move') or f.d.get('kind') == 'ctor' and len(f.params) == 1 and short(q) in str(f.params[0].get('t')):
                continue
            if (f.d.get('acc') != 'public' or not f.n.startswith('set')) and not f.d.get('virt') and f.d.get('kind') != 'ctor' and any(g is not f and f.n in calls_of(g) for g in fs):
                continue                 # part of the functions which call it
            runs, thrown, k = trace(prog, q, f, ('customAdaptions', 'customAdaptAdaption', 'adaptAdaption'))
            touched = any(e[0] == 'set' and e[1] in vs | {lo, hi} or e[0] == 'enforce' and e[1] in vs for tr, r, st in runs for e in tr)
            if not touched:
                continue
            n += 1
            where = '%s::%s' % (short(q), f.n)
            for tr, r, st in runs:
                out = in_range(tr, vs, lo, hi)
                rep.ob('%s/%s' % (where, name), not out, f.loc, 'in-range', '%s may be left outside of its range' % ', '.join(sorted(v[2] for v in out)))
                lims = [e for e in tr if e[0] == 'set' and e[1] in (lo, hi)]
                if lims and len(f.params) > 1:
                    rep.ob('%s/%s both' % (where, name), {e[1] for e in lims} == {lo, hi}, f.loc, 'in-range', 'only one of the limits is set')
            for tr, ty in thrown:
                out = in_range(tr, vs, lo, hi)
                rep.ob('%s/%s when rejecting' % (where, name), not out, f.loc, 'in-range', '%s may be outside of its range when the function is left' % ', '.join(sorted(v[2] for v in out)))
    return n


# ---------------------------------------------------------------- stalls
def stalls(prog, rep, q):
    n = 0
    for f in plain(prog, q):
        if f.n != 'updateOnStall' or f.body is None:
            continue
        n += 1
        where = '%s::%s' % (short(q), f.n)
        own_base = prog.classes[q].d.get('bases') or prog.bases_of(q)
        runs, thrown, k = trace(prog, q, f, ())
        # the same function of the parent class is followed; its stores are those of the path
        for tr, r, st in runs:
            v = litbool(r) if r is not None else None
            sets = [e for e in tr if e[0] == 'set' and own(e[1])]
            changed = any(not same(tr, e) for e in sets)
            rep.ob(where + '/reported', v is not None and v == changed, f.loc, 'changes-reported', 'it is %s although the parameters were %s' % ('reported that the parameters have been updated' if v else 'not reported that the parameters have been updated', 'changed' if changed else 'not changed'))
            for e in sets:
                src = flat(e[3]) if e[3] is not None else None
                rep.ob(where + '/' + e[1][2], e[2] == '=' and own(src) and 'reset' in src[2].lower() and src != e[1], f.loc, 'reset-value', '%s is not set to its reset value' % e[1][2])
        # everything which has a reset value is reset when it differs from it
        resets = [x['n'] for x in prog.classes[q].fields if 'reset' in x['n'].lower()]
        done = {flat(e[3])[2] for tr, r, st in runs for e in tr if e[0] == 'set' and e[3] is not None and own(flat(e[3]))}
        for x in resets:
            rep.ob(where + '/uses ' + x, x in done, f.loc, 'reset-value', '%s is not used' % x)
        for tr, r, st in runs:
            for x in resets:
                F = ('F', THIS, x)
                ne = [e for e in tr if e[0] == 'br' and e[1] is not None and e[1][0] == 'B' and e[1][1] == '==' and F in (flat(e[1][2]), flat(e[1][3]))]
                st_ = any(e[0] == 'set' and e[3] is not None and flat(e[3]) == F for e in tr)
                rep.ob('%s/%s applied' % (where, x), st_ or any(e[2] is True for e in ne), f.loc, 'reset-value', 'on some path the value is not reset')
    return n


def same(tr, e):
    """the value stored is known to be the one which is there"""
    a, b = e[1], flat(e[3]) if e[3] is not None else None
    return any(x[0] == 'br' and x[1] is not None and x[1][0] == 'B' and x[1][1] == '==' and x[2] is True and {flat(x[1][2]), flat(x[1][3])} == {a, b} for x in tr)


# ---------------------------------------------------------------- queries
def queries(prog, rep, q):
    n = 0
    for f in plain(prog, q):
        if f.n not in ('customQueryProperty', 'queryPropertyFrom') or f.body is None:
            continue
        got = {}
        runs, thrown, k = trace(prog, q, f, ('customQueryProperty', 'name'))
        where = '%s::%s' % (short(q), f.n)
        for tr, r, st in runs:
            names = [str(x[2]) for e in tr if e[0] == 'br' and e[2] is True and e[1] is not None and e[1][0] == 'B' and e[1][1] == '==' for x in (flat(e[1][2]), flat(e[1][3])) if x is not None and x[0] == 'L']
            pushed = [flat(e[2]) for e in tr if e[0] == 'push' and e[1] is not None and e[1][0] == 'P']
            if not names and not pushed:
                if f.n == 'customQueryProperty':
                    rep.ob(where + '/unknown', litbool(r) is False, f.loc, 'answers', 'an unknown property is reported as known')
                continue
            n += 1
            p = names[-1].strip('"') if names else '?'
            val = pushed[0] if pushed else None
            while val is not None and not own(val) and val[0] in ('K', 'N') and len(val[2]) == 1:
                val = flat(val[2][0])
            rep.ob('%s/%s' % (where, p), len(pushed) == 1 and own(val), f.loc, 'answers', 'the value of the property is not handed out (once)')
            if f.n == 'customQueryProperty':
                rep.ob('%s/%s known' % (where, p), litbool(r) is True, f.loc, 'answers', 'the property is reported as unknown')
            if own(val):
                got.setdefault(val, set()).add(p)
                g = field_of(prog, q, 'get' + p[:1].upper() + p[1:])
                if g is not None:
                    rep.ob('%s/%s value' % (where, p), g == val, f.loc, 'answers', 'the value handed out is not the one of the property')
        for v, ps in got.items():
            rep.ob('%s/%s alone' % (where, v[2]), len(ps) == 1, f.loc, 'answers', 'several properties have the same value: %s' % ', '.join(sorted(ps)))
    return n


# ---------------------------------------------------------------- adaption of the adaptor
def rates(prog, q):
    """{name: (value, rate)}"""
    res = {}
    for f in plain(prog, q):
        if f.n.startswith('get') and f.n.endswith('AdaptionRate') and not f.params:
            v, r = field_of(prog, q, f.n[:-len('AdaptionRate')]), field_of(prog, q, f.n)
            if v is not None and r is not None:
                res[f.n[3:-len('AdaptionRate')]] = (v, r)
    return res


def scaled(e, v):
    """the factor by which v is multiplied"""
    if e[2] == '*=':
        return e[3]
    if e[2] == '=' and e[3] is not None and e[3][0] == 'B' and e[3][1] == '*':
        if flat(e[3][2]) == v:
            return e[3][3]
        if flat(e[3][3]) == v:
            return e[3][2]
    return None


def self_adaption(prog, rep, q):
    n = 0
    rs = rates(prog, q)
    for f in plain(prog, q):
        if f.n != 'customAdaptAdaption' or f.body is None:
            continue
        runs, thrown, k = trace(prog, q, f)
        for name, (v, rate) in rs.items():
            n += 1
            where = '%s::%s/%s' % (short(q), f.n, name)
            for tr, r, st in runs:
                ss = [e for e in tr if e[0] == 'set' and e[1] == v]
                mul = [scaled(e, v) for e in ss]
                mul = [m for m in mul if m is not None]
                good = len(mul) == 1 and any('normal' in k_ and 'bi_normal' not in k_ and len(a) == 2 and zero(a[0]) and a[1] == rate for k_, a in draws(mul[0])) and mentions(mul[0], lambda y: y[0] == 'C' and y[1] in ('gexp', 'exp'))
                rep.ob(where, good, f.loc, 'self-adaption', 'the value is not multiplied once with exp(N(0, its adaption rate))')
    return n


# ---------------------------------------------------------------- when values are adapted
def returned_vars(f):
    """the local variables on which the returned value is based"""
    refs = lambda n: {y.get('id') for y in walk(n) if y['k'] == 'ref' and y.get('rk') == 'local'}
    ids = set()
    for x in walk(f.body):
        if x['k'] == 'return':
            ids |= refs(x)
    while True:
        new = set(ids)
        for x in walk(f.body):
            if x['k'] == 'decl':
                for d in x['d']:
                    if d.get('id') in ids and d.get('i'):
                        new |= refs(d['i'])
        if new == ids:
            return ids
        ids = new


def modes(prog, rep, q):
    n = 0
    en = next((e for x, e in prog.enums.items() if short(x) == 'adaptionMode'), None)
    mode = field_of(prog, q, 'getAdaptionMode')
    prob = field_of(prog, q, 'getAdaptionProbability')
    if mode is None or prob is None or en is None:
        raise AnalysisBroken('adaption mode or probability of %s not found' % short(q))
    fs = [f for f in prog.bycls.get(q, []) if f.n == 'adapt' and f.body is not None and (f.d.get('mode') != 'inst' or 'GAdaptorT.cpp' in str(f.loc))]
    for f in fs:
        n += 1
        vec = 'vector' in str(f.params[0].get('t'))
        where = '%s::adapt/%s' % (short(q), f.params[0].get('t'))
        k = AdC({q} | set(prog.bases_of(q)), ('customAdaptions', 'adaptAdaption'))
        out, thrown = Interp(prog, k, q).run(f, ())
        val = ('P', 0, f.params[0]['n'])

        def decided(tr):
            m = {}
            for e in tr:
                if e[0] == 'br' and e[1] is not None and e[1][0] == 'B' and e[1][1] == '==':
                    x = [y for y in (flat(e[1][2]), flat(e[1][3])) if y is not None and y[0] == 'E']
                    if x and mode in (flat(e[1][2]), flat(e[1][3])):
                        m[x[0][1].split('::')[-1]] = e[2]
            return m

        def lucky(tr):
            r = None
            for e in tr:
                if e[0] == 'br' and e[3] is not None and mentions(e[3], lambda y: y[0] in ('K', 'N') and 'bernoulli' in str(y[1])):
                    ds = draws(e[3])
                    if any(a == (prob,) for k_, a in ds):
                        r = e[2]
                    else:
                        r = 'other'
            return r

        def one(tr, m, loop):
            """a value is adapted exactly when it should be"""
            cs = [e for e in tr if e[0] == 'call' and e[1] == 'customAdaptions']
            aa = [e for e in tr if e[0] == 'call' and e[1] == 'adaptAdaption']
            if m.get('ALWAYS'):
                want = 1
            elif m.get('WITHPROBABILITY'):
                l = lucky(tr)
                if l not in (True, False):
                    rep.ob(where + '/probability', False, f.loc, 'adapts-when-told', 'the decision is not taken with the adaption probability')
                    return None
                want = 1 if l else 0
            else:
                want = 0
            rep.ob(where + '/adapted', len(cs) == want, f.loc, 'adapts-when-told', 'a value is adapted %d times instead of %d (%s)' % (len(cs), want, ', '.join(x for x in m if m[x]) or 'never'))
            rep.ob(where + '/adaptor', len(aa) == want, f.loc, 'adapts-when-told', 'the adaptor itself is adapted %d times instead of %d' % (len(aa), want))
            if cs and aa:
                rep.ob(where + '/order', tr.index(aa[0]) < tr.index(cs[0]), f.loc, 'adapts-when-told', 'the adaptor is adapted after the value')
            for c in cs:
                rep.ob(where + '/range', len(c[2]) >= 2 and flat(c[2][1]) == ('P', 1, f.params[1]['n']), f.loc, 'adapts-when-told', 'the range is not handed on')
                if vec and c[3]:
                    back = any(e[0] == 'set' and e[1] is not None and e[1][0] != 'V' for e in tr[tr.index(c) + 1:])
                    rep.ob(where + '/value', back, f.loc, 'adapts-when-told', 'only a copy of the value is adapted')
                if not vec:
                    rep.ob(where + '/value', flat(c[2][0]) == val, f.loc, 'adapts-when-told', 'something else is adapted')
            return want
        heads = {}
        counted = returned_vars(f)
        for st, r in out:
            tr = st.cl
            m = decided(tr)
            r = canon(r)
            if not vec:
                w = one(tr, m, False)
                if w is not None:
                    c = flat(r)
                    if c is not None and c[0] == 'L':
                        rep.ob(where + '/count', str(c[2]).rstrip('uUlL') == str(w), f.loc, 'adapts-when-told', 'the number of adaptions is not returned')
            else:
                ran = any(e[0] == 'over' for e in tr)
                if m.get('ALWAYS') or m.get('WITHPROBABILITY'):
                    rep.ob(where + '/all values', ran, f.loc, 'adapts-when-told', 'the values are not visited')
                cs = [e for e in tr if e[0] == 'call']
                rep.ob(where + '/only in loops', not cs, f.loc, 'adapts-when-told', 'values are adapted outside of the loop')
        if vec:
            for node, tr in k.bodies:
                m = heads.get(node)
                one_m = modes_at(k, out, node, decided)
                for m in one_m:
                    w = one(tr, m, True)
                    if w is None:
                        continue
                    inc = [e for e in tr if e[0] == 'set' and e[1] is not None and e[1][0] == 'V' and (not counted or e[1][1] in counted) and (e[2] in ('+=', '++') or e[2] == '=' and e[3] is not None and e[3][0] == 'B' and e[3][1] == '+')]
                    rep.ob(where + '/count', len(inc) == w, f.loc, 'adapts-when-told', 'the adaptions are not counted')
        rep.ob(where + '/modes', True, f.loc, 'adapts-when-told', '')
    return n


def thresholds(prog, rep, q):
    """the parameters of an adaptor are adapted once per period, or with the probability given for that"""
    thr, cnt, prob = (field_of(prog, q, x) for x in ('getAdaptionThreshold', 'getAdaptionCounter', 'getAdaptAdaptionProbability'))
    if thr is None or cnt is None or prob is None:
        raise AnalysisBroken('counter, threshold or probability of %s not found' % short(q))
    n = 0
    for f in plain(prog, q):
        if f.n != 'adaptAdaption' or f.body is None:
            continue
        runs, thrown, k = trace(prog, q, f, ('customAdaptAdaption',))
        where = '%s::%s' % (short(q), f.n)
        for t in (0, 1, 2, 3):
            for c in (0, 1, 2):
                for p in (0, 1):
                    for luck in (False, True):
                        if t and (p or luck) or not p and luck or t and c >= t:
                            continue
                        n += 1
                        vals = {thr: t, cnt: c, prob: p}
                        leaf = lambda x: vals.get(x)

                        def holds(e, now):
                            if mentions(e[3], lambda y: y[0] in ('K', 'N') and 'bernoulli' in str(y[1])):
                                if not any(a == (prob,) for k_, a in draws(e[3])):
                                    return None
                                return luck == e[2]
                            stepped = mentions(e[1], lambda y: y[0] == 'B' and y[1] in '+-' and cnt in y[2:] and any(z[0] == 'L' for z in y[2:]))
                            v = calc(e[1], leaf if stepped or e[4] else lambda x: now if x == cnt else leaf(x))
                            return None if v is None else bool(v) == e[2]

                        def checks(tr):
                            """the decisions, evaluated with the value of the counter at that time"""
                            now, hs = c, []
                            for e in tr:
                                if e[0] == 'set' and e[1] == cnt:
                                    now = step(now, e)
                                if e[0] == 'br':
                                    hs.append(holds(e, now))
                            return hs

                        def step(now, e):
                            x = calc(e[3], lambda y: now if y == cnt else leaf(y)) if e[3] is not None else None
                            return None if x is None or now is None else now + x if e[2] == '+=' else x
                        fits = []
                        for tr, r, st in runs:
                            hs = checks(tr)
                            if False not in hs:
                                fits.append((tr, None in hs))
                        what = 'threshold %d, counter %d, probability %s' % (t, c, 'drawn' if luck else 'not drawn' if p else '0')
                        rep.ob(where + '/decided', bool(fits) and not any(u for tr, u in fits), f.loc, 'adapts-in-time', 'it depends on something else whether the parameters are adapted')
                        for tr, u in fits:
                            calls = len([e for e in tr if e[0] == 'call'])
                            due = c + 1 >= t if t else luck
                            rep.ob(where + '/due', calls == (1 if due else 0), f.loc, 'adapts-in-time', 'the parameters are adapted %d times instead of %d (%s)' % (calls, due, what))
                            now = c
                            for e in tr:
                                if e[0] == 'set' and e[1] == cnt:
                                    now = step(now, e)
                            want = (0 if due else c + 1) if t else c
                            rep.ob(where + '/counter', now == want, f.loc, 'adapts-in-time', 'the counter of adaptions is %s instead of %s (%s)' % (now, want, what))
    return n


def probability(prog, rep, q):
    """the probability is changed before it is used, and only if this was asked for"""
    n = 0
    prob, rate = field_of(prog, q, 'getAdaptionProbability'), field_of(prog, q, 'getAdaptAdProb')
    if prob is None or rate is None:
        return 0
    for f in [f for f in prog.bycls.get(q, []) if f.n == 'adapt' and f.body is not None and (f.d.get('mode') != 'inst' or 'GAdaptorT.cpp' in str(f.loc))]:
        k = AdC({q} | set(prog.bases_of(q)), ('customAdaptions', 'adaptAdaption'))
        out, thrown = Interp(prog, k, q).run(f, ())
        where = '%s::adapt/%s' % (short(q), f.params[0].get('t'))
        for st, r in out:
            n += 1
            on = [v for e, v in ((e, truth_of(e, rate)) for e in st.cl if e[0] == 'br') if v is not None]
            ss = [i for i, e in enumerate(st.cl) if e[0] == 'set' and e[1] == prob]
            use = [i for i, e in enumerate(st.cl) if e[0] == 'br' and any('bernoulli' in k_ for k_, a in draws(e[3]))]
            mul = [scaled(st.cl[i], prob) for i in ss]
            mul = [m for m in mul if m is not None]
            if on and on[-1]:
                good = len(mul) == 1 and any('normal' in k_ and len(a) == 2 and zero(a[0]) and a[1] == rate for k_, a in draws(mul[0])) and mentions(mul[0], lambda y: y[0] == 'C' and y[1] in ('gexp', 'exp'))
                rep.ob(where + '/probability changed', good, f.loc, 'self-adaption', 'the probability is not multiplied once with exp(N(0, its adaption rate))')
                enf = [i for i, e in enumerate(st.cl) if e[0] == 'enforce' and e[1] == prob]
                rep.ob(where + '/probability in range when used', not use or not ss or any(ss[-1] < i < use[0] for i in enf) or not in_range(st.cl[:use[0]], {prob}, *limits_of(prog, q)), f.loc, 'self-adaption', 'the changed probability is used before it is brought back into its range')
            elif on:
                rep.ob(where + '/probability kept', not ss, f.loc, 'self-adaption', 'the probability is changed although this was not asked for')
            rep.ob(where + '/probability first', not ss or not use or ss[0] < use[0], f.loc, 'self-adaption', 'the probability is changed after it has been used')
    return n


def limits_of(prog, q):
    r = [(lo, hi) for name, lo, hi in ranges(prog, q) if name == 'AdProb']
    return r[0] if r else (None, None)


def truth_of(e, x):
    """does the branch say that x is positive? None if it does not talk about it"""
    t = e[1]
    if t is None or draws(e[3]) or not mentions(t, lambda y: y == x):
        return None
    a, b = calc(t, lambda y: 1 if y == x else None), calc(t, lambda y: 0 if y == x else None)
    if a is None or b is None or a == b:
        return None
    return e[2] == bool(a)


def modes_at(k, out, node, decided):
    ms = []
    for st, r in out:
        if ('over', node) in st.cl:
            i = st.cl.index(('over', node))
            m = decided(st.cl[:i])
            m = {x: v for x, v in m.items()}
            if m not in ms:
                ms.append(m)
    return ms


# ---------------------------------------------------------------- how values are changed
def widths(prog, rep, q):
    n = 0
    for f in plain(prog, q):
        if f.n != 'customAdaptions' or f.body is None:
            continue
        runs, thrown, k = trace(prog, q, f)
        where = '%s::%s' % (short(q), f.n)
        val, rng = ('P', 0, f.params[0]['n']), ('P', 1, f.params[1]['n'])
        get = lambda x: next((y for y in (field_of(prog, c, x) for c in [q] + list(prog.bases_of(q))) if y is not None), None)
        s, s1, s2, d, sym = get('getSigma'), get('getSigma1'), get('getSigma2'), get('getDelta'), get('getUseSymmetricSigmas') or get('getUseSymmetricSigma')
        n += 1
        for tr, r, st in runs:
            ss = [e for e in tr if e[0] == 'set' and e[1] == val]
            rep.ob(where + '/changes', len(ss) >= 1, f.loc, 'value-changes', 'on some path the value is not changed')
            every = [y for e in tr for t in e[1:] if isinstance(t, tuple) for y in draws(t)]
            normal = [a for k_, a in every if 'bi_normal' not in k_ and 'normal' in k_]
            bi = [a for k_, a in every if 'bi_normal' in k_]
            for e in ss:
                if s is None and s1 is None:
                    continue
                add = e[3] if e[2] == '+=' else e[3] if e[2] == '=' and e[3] is not None and e[3][0] == 'B' and e[3][1] == '+' and val in (flat(e[3][2]), flat(e[3][3])) else None
                if e[2] == '-=':
                    add = e[3]
                rep.ob(where + '/added', add is not None, f.loc, 'value-changes', 'the change is not added to the value')
                if add is None:
                    continue
                lit = flat(add)
                if lit is not None and (lit[0] == 'L' or lit[0] == 'U' and flat(lit[2]) is not None and flat(lit[2])[0] == 'L' or lit[0] in ('cond', 'T')):
                    continue
                if draws(add):
                    rep.ob(where + '/range', mentions(add, lambda y: y == rng), f.loc, 'value-changes', 'the change does not scale with the range of the value')
            if s is not None:
                rep.ob(where + '/sigma', bool(normal) and all(len(a) == 2 and zero(a[0]) and a[1] == s for a in normal), f.loc, 'width-used', 'the change is not drawn from a normal distribution around zero with the current width')
            if s1 is not None and s2 is not None and d is not None:
                flag = [e[2] for e in tr if e[0] == 'br' and sym is not None and flat(e[1]) == sym]
                rep.ob(where + '/draw', bool(bi), f.loc, 'width-used', 'no number is drawn')
                for a in bi:
                    rep.ob(where + '/parameters', len(a) == 4 and zero(a[0]) and a[1] == s1 and a[3] == d and (a[2] == s1 if flag and flag[-1] else a[2] == s2), f.loc, 'width-used', 'the change is not drawn with the current widths and distance')
        if s is None and s1 is None and 'bool' in str(f.params[0].get('t')):
            for tr, r, st in runs:
                ss = [e for e in tr if e[0] == 'set' and e[1] == val]
                was = [e[2] if not (e[1][0] == 'B' and str(litbool(flat(e[1][3])) if flat(e[1][3]) else None) == 'False') else not e[2] for e in tr if e[0] == 'br' and e[1] is not None and mentions(e[1], lambda y: y == val)]
                if ss and was and ss[-1][3] is not None and litbool(ss[-1][3]) is not None:
                    rep.ob(where + '/flipped', litbool(ss[-1][3]) != was[0], f.loc, 'value-changes', 'the value is not flipped')
    return n


def run24(prog, rep):
    base = [q for q in prog.classes if short(q) == BASE]
    if len(base) != 1:
        raise AnalysisBroken('class %s not found' % BASE)
    b = base[0]
    qs = [b] + sorted(q for q in prog.classes if b in prog.bases_of(q))
    rep.floor('adaptors', len(qs), 5)
    c = dict(ranges=0, stalls=0, queries=0, rates=0, widths=0)
    for q in qs:
        c['ranges'] += keep_ranges(prog, rep, q)
        c['stalls'] += stalls(prog, rep, q)
        c['queries'] += queries(prog, rep, q)
        c['rates'] += self_adaption(prog, rep, q)
        c['widths'] += widths(prog, rep, q)
    c['modes'] = modes(prog, rep, b)
    c['periods'] = thresholds(prog, rep, b)
    c['probabilities'] = probability(prog, rep, b)
    rep.floor('functions touching a range', c['ranges'], 6)
    rep.floor('reactions to stalls', c['stalls'], 1)
    rep.floor('properties', c['queries'], 2)
    rep.floor('self-adapting parameters', c['rates'], 2)
    rep.floor('adaptions of values', c['widths'], 3)
    rep.floor('decisions to adapt', c['modes'], 2)
    for x, v in c.items():
        rep.stat(x, v)


register('C24', run24, 'all',
         'value-flow and range analysis of all functions of the adaptors, decision table of the adaption modes, parameters of all random draws',
         'Every function storing a probability, width or distance is followed on all paths: at its end (normal or not) the value is within the limits in force. Draws are identified by the distribution parameters they are given.')
