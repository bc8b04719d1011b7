"""C19: constrained parameters never show a value outside of their boundaries."""
import itertools
from facts import walk, AnalysisBroken
from flow import *
from rules.registry import register
from rules.matrix import short
from rules.c_workers import plain
from rules.c_broker import key
from rules.loops import LoopRec

NUM = 'Gem::Geneva::GConstrainedNumT'
COL = 'Gem::Geneva::GConstrainedNumCollectionT'
DRAW = ('()', 'operator()')
SAME = ('numeric_cast', 'lexical_cast')


def norm(t):
    """key() without conversions"""
    t = key(t)
    while t is not None:
        if t[0] == 'K' and len(t) == 3 and len(t[2]) == 1:
            t = key(t[2][0])
        elif t[0] == 'C' and t[1] in SAME and len(t[3]) == 1:
            t = key(t[3][0])
        else:
            return t
    return t


def subst(t, m):
    """replace sub-terms (exact matches)"""
    if t in m:
        return m[t]
    if isinstance(t, tuple):
        return tuple(subst(x, m) for x in t)
    return t


def deep(t):
    """norm() on all levels"""
    if not isinstance(t, tuple):
        return t
    n = norm(t) if t and isinstance(t[0], str) else t
    if n is None:
        return None
    return tuple(deep(x) if isinstance(x, tuple) else x for x in n)


# ------------------------------------------------------------------------------------------ polynomials
def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
        if r[m] == 0:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for (m, c), (n, d) in itertools.product(a.items(), b.items()):
        x = tuple(sorted(m + n, key=repr))
        r[x] = r.get(x, 0) + c * d
        if r[x] == 0:
            del r[x]
    return r


def frz(p):
    return tuple(sorted(p.items(), key=repr))


def poly(t, divs):
    """polynomial of a term; quotients and remainders become atoms noted in divs"""
    t = norm(t)
    if t is None:
        return None
    if t[0] == 'L':
        try:
            v = int(t[2].rstrip('uUlL'), 0)
        except ValueError:
            return None
        return {(): v} if v else {}
    if t[0] == 'U' and t[1] == '-':
        a = poly(t[2], divs)
        return None if a is None else padd({}, a, -1)
    if t[0] == 'B' and t[1] in '+-*/%':
        a, b = poly(t[2], divs), poly(t[3], divs)
        if a is None or b is None:
            return None
        if t[1] == '+':
            return padd(a, b)
        if t[1] == '-':
            return padd(a, b, -1)
        if t[1] == '*':
            return pmul(a, b)
        at = ('quot' if t[1] == '/' else 'rest', frz(a), frz(b))
        divs.add((frz(a), frz(b)))
        return {(at,): 1}
    return {(t,): 1}


def psubst(p, atom, by):
    r = {}
    for m, c in p.items():
        x = {(): c}
        for f in m:
            x = pmul(x, by if f == atom else {(f,): 1})
        r = padd(r, x)
    return r


def nonneg(p, cmps):
    """p >= 0 for integers follows from one known comparison"""
    for a, b, truth in cmps:
        a, b = poly(a, set()), poly(b, set())
        if a is None or b is None:
            continue
        low = padd(padd(b, a, -1), {(): -1}) if truth else padd(a, b, -1)
        d = padd(p, low, -1)
        if not d or (set(d) == {()} and d[()] >= 0):
            return True
    return False


def int_in_range(r, val, L, U, cmps):
    """the integer term r lies within [L,U] on a path with the given comparisons"""
    divs = set()
    p = poly(r, divs)
    if p is None:
        return False
    Lp, Up = {(L,): 1}, {(U,): 1}
    if p in (Lp, Up):
        return True
    span = padd(padd(Up, Lp, -1), {(): 1})
    for num, den in divs:
        num, den = dict(num), dict(den)
        if den != span or not nonneg(num, cmps):
            continue
        c = num.get((val,), 0)
        if c not in (1, -1) or any(val in m for m in num if m != (val,)):
            continue
        s = ('s',)
        D = ('quot', frz(num), frz(den))
        # num = D*den + s   =>   val = c * (D*den + s - rest)
        rest = padd(num, {(val,): c}, -1)
        v = padd(padd(pmul({(D,): 1}, den), {(s,): 1}), rest, -1)
        v = {m: k * c for m, k in v.items()}
        q = psubst(psubst(p, ('rest', frz(num), frz(den)), {(s,): 1}), val, v)
        # 0 <= s <= U-L
        if q == padd(Lp, {(s,): 1}) or q == padd(Up, {(s,): 1}, -1):
            return True
    return False


# ------------------------------------------------------------------------------------------ interpretation
class BRec(LoopRec):
    def __init__(self, hier, lo, hi, raw, own, no_enter):
        super().__init__(hier, self.sel, self.br, None, no_enter)
        self.lo, self.hi, self.raw, self.own = lo, hi, raw, own

    def bounds(self, tr):
        m = {('F', THIS, self.lo): ('F', THIS, self.lo), ('F', THIS, self.hi): ('F', THIS, self.hi)}
        for r in tr:
            if r[0] == 'bnd':
                m[('F', THIS, r[1])] = r[2]
            if r[0] == 'val' and r[1] == ('own',) and self.raw:
                m[('F', THIS, self.raw)] = r[2]
        return m

    def value_of(self, lhs):
        lhs = key(lhs)
        if lhs is None:
            return None
        if lhs == ('F', THIS, self.raw):
            return ('own',)
        if self.own and lhs[0] == 'C' and lhs[1] in ('at', '[]', 'operator[]') and key(lhs[2]) in (THIS, ('F', THIS, self.own)):
            return ('own', key(lhs[3][0]))
        if self.own and lhs[0] == 'X' and key(lhs[1]) in (THIS, ('F', THIS, self.own)):
            return ('own', key(lhs[2]))
        if self.own and lhs[0] == 'elem' and key(strip(lhs[1])) in (THIS, ('F', THIS, self.own)):
            return ('own', lhs)
        return None

    def sel(self, ev, st):
        tr = st.cl[0]
        if ev.kind == 'shift' and ev.rhs is not None and mentions(ev.rhs, lambda y: y[0] == 'E' and y[1].endswith('::TERMINATION')):
            return 'drop'
        if ev.kind == 'init' and ev.lhs is None and ev.name and '::' in str(ev.name) and ev.rhs is not None:
            r = ev.rhs
            args = tuple(r[2]) if r[0] == 'K' and (r[1] == 'init' or short(ev.name) in r[1]) else (r,)
            return ('base', ev.name, tuple(deep(a) for a in args))
        if ev.kind in ('assign', 'init') and ev.lhs is not None:
            l = key(ev.lhs)
            if l is not None and l[0] == 'F' and l[1] == THIS and l[2] in (self.lo, self.hi):
                return ('bnd', l[2], subst(deep(ev.rhs), self.bounds(tr)))
            v = self.value_of(ev.lhs)
            if v is not None:
                rhs = deep(ev.rhs)
                if ev.op and ev.op not in ('=', '') and ev.op.endswith('='):
                    rhs = ('B', ev.op[:-1], v, rhs)
                return ('val', v, subst(rhs, self.bounds(tr)))
        if ev.kind == 'call' and ev.name == 'push_back' and ev.base is not None and ev.args:
            return ('push', key(ev.base), subst(deep(ev.args[0]), self.bounds(tr)))
        if ev.kind == 'call' and ev.name in ('put', 'store', 'emplace_back', 'insert') and ev.args:
            return ('out', ev.name, tuple(subst(deep(a), self.bounds(tr)) for a in ev.args[-1:]))
        if ev.kind == 'assign' and ev.lhs is not None and ev.lhs[0] in ('X', 'P', 'C'):
            return ('out', 'assign', (subst(deep(ev.rhs), self.bounds(tr)),))
        return None

    def br(self, t, truth, st):
        if t is None or t[0] != 'B' or t[1] not in ('<', '=='):
            return None
        m = self.bounds(st.cl[0])
        a, b = subst(deep(t[2]), m), subst(deep(t[3]), m)
        return ('cmp' if t[1] == '<' else 'eq', a, b, truth)


def cmps(tr):
    return [(r[1], r[2], r[3]) for r in tr if r[0] == 'cmp']


def below(a, b, cs, eq=True):
    """a <= b (or a < b) is known"""
    if a == b:
        return eq
    return any((x, y, t) == (b, a, False) and eq or (x, y, t) == (a, b, True) for x, y, t in cs)


def ranged(v, lo, hi, cs):
    """v is known to lie within [lo,hi]"""
    v = norm(v)
    if v is None:
        return False
    if v == lo or v == hi:
        return True
    if v[0] == 'C' and v[1] == 'clamp' and len(v[3]) == 3 and norm(v[3][1]) == lo and norm(v[3][2]) == hi:
        return True
    if v[0] == 'C' and v[1] in ('min', 'max') and len(v[3]) == 2:
        a, b = norm(v[3][0]), norm(v[3][1])
        lim, oth = (hi, 'max') if v[1] == 'min' else (lo, 'min')
        lim2 = lo if v[1] == 'min' else hi
        for x, y in ((a, b), (b, a)):
            if x == lim and y is not None and y[0] == 'C' and y[1] == oth and lim2 in [norm(z) for z in y[3]]:
                return True
    return below(lo, v, cs) and below(v, hi, cs)


def draw(v):
    """(lower, upper) of the distribution v was drawn from"""
    v = norm(v)
    if v is None or v[0] != 'C' or v[1] not in DRAW or v[2] is None:
        return None
    args = v[3]
    if len(args) == 2:
        d = key(args[1])
    else:
        d = key(v[2])
    if d is not None and d[0] in ('K', 'N') and len(d) == 3 and len(d[2]) == 2:
        return norm(d[2][0]), norm(d[2][1])
    return None


def prior(t):
    t = norm(t)
    return norm(t[3][0]) if t is not None and t[0] == 'C' and t[1] in ('float_prior', 'nextafter') and t[3] else None


class Fam:
    """one class of the family"""
    def __init__(self, prog, q, base):
        c = prog.classes[base]
        f = [x['n'] for x in c.fields if not x.get('st')]
        lo = [n for n in f if 'lower' in n.lower()]
        hi = [n for n in f if 'upper' in n.lower()]
        if len(lo) != 1 or len(hi) != 1:
            raise AnalysisBroken('boundaries of %s not found' % base)
        self.lo, self.hi = lo[0], hi[0]
        self.raw = self.own = None
        for b in prog.bases_of(base):
            if short(b) == 'GParameterT':
                r = [x['n'] for x in prog.classes[b].fields if not x.get('st') and x['t'].replace('mutable ', '').strip() == 'T']
                if len(r) != 1:
                    raise AnalysisBroken('value of %s not found' % b)
                self.raw = r[0]
            if short(b) == 'GPODVectorT':
                r = [x['n'] for x in prog.classes[b].fields if not x.get('st') and 'vector' in x['t']]
                if len(r) != 1:
                    raise AnalysisBroken('data of %s not found' % b)
                self.own = r[0]
        self.q, self.base, self.prog = q, base, prog
        self.hier = {q} | set(prog.bases_of(q))

    def run(self, f, root=None, no_enter=('transfer',)):
        root = root or self.q
        k = BRec(self.hier, self.lo, self.hi, self.raw, self.own, no_enter)
        out, thr = Interp(self.prog, k, root).run(f, ((), ()))
        return k, out, thr


def relevant_methods(prog, q):
    fs = [f for f in plain(prog, q) if f.body and not f.d.get('static')]
    # private helpers are judged as part of the functions which call them
    called = {(x.get('f') or {}).get('n') or x.get('n') for f in fs for x in walk(f.body) if x['k'] == 'call'}
    return [f for f in fs if not (f.d.get('acc') == 'private' and not f.d.get('virt') and f.d.get('kind') not in ('ctor', 'dtor') and f.n in called)]


SKIP = ('load_', 'compare_', 'clone_', 'name_', 'name', 'adapt_', 'serialize', 'save', 'load')


def test_only(f):
    return 'GUnitTests' in f.n


def own_raw(fam):
    def p(y):
        if y[0] == 'F' and y[1] == THIS and y[2] == fam.raw:
            return True
        if fam.own and y[0] == 'C' and y[1] in ('at', '[]', 'operator[]', 'front', 'back') and key(y[2]) in (THIS, ('F', THIS, fam.own)):
            return True
        if fam.own and y[0] == 'X' and key(y[1]) in (THIS, ('F', THIS, fam.own)):
            return True
        if fam.own and y[0] == 'elem' and key(strip(y[1])) in (THIS, ('F', THIS, fam.own)):
            return True
        return False
    return p


def raw_outside(t, israw):
    """a raw own value appears outside of transfer() or comparisons"""
    t = key(t)
    if t is None or not isinstance(t, tuple):
        return False
    if t[0] == 'C' and t[1] == 'transfer':
        return False
    if t[0] == 'B' and t[1] in ('<', '==', '!=', '<=', '>', '>='):
        return False
    if israw(t):
        return True
    for x in t[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                if raw_outside(x, israw):
                    return True
            elif any(isinstance(y, tuple) and y and raw_outside(y, israw) for y in x):
                return True
    return False


class Ctor:
    """normal exits of a constructor, including those of its bases: list of traces in terms of its own parameters"""
    def __init__(self, fam):
        self.fam = fam
        self.memo = {}

    def traces(self, q, f):
        k_ = id(f)
        if k_ in self.memo:
            return self.memo[k_]
        k, out, _ = self.fam.run(f, q)
        res = []
        for st, r in out:
            pre = [()]
            rest = []
            for x in st.cl[0]:
                if x[0] == 'base' and short(x[1]) == 'GParameterT' and len(x[2]) == 1:
                    rest.append(('val', ('own',), x[2][0]))
                    continue
                if x[0] == 'base' and x[1] in self.fam.hier:
                    sub = self.of_base(x[1], x[2])
                    if sub is not None:
                        pre = [p + s for p in pre for s in sub]
                    continue
                rest.append(x)
            for p in pre:
                m = {}
                for y in p:
                    if y[0] == 'bnd':
                        m[('F', THIS, y[1])] = y[2]
                res.append((p + tuple(subst(y, m) for y in rest), k))
        self.memo[k_] = res
        return res

    def of_base(self, q, args):
        if q not in (NUM, COL) and NUM not in self.fam.prog.bases_of(q) and COL not in self.fam.prog.bases_of(q):
            return None
        for f in plain(self.fam.prog, q):
            if f.d.get('kind') == 'ctor' and len(f.params) == len(args) and not f.d.get('cm') and not any(short(q) in p['t'] for p in f.params):
                m = {('P', i, p['n']): a for i, (p, a) in enumerate(zip(f.params, args))}
                return [subst(tr, m) for tr, _ in self.traces(q, f)]
        return None


def run(prog, rep):
    fams = []
    for base in (NUM, COL):
        if base not in prog.classes:
            raise AnalysisBroken('%s not found' % base)
        for q in [base] + sorted(prog.derived_of(base)):
            fams.append(Fam(prog, q, base))
    ntr = nset = nout = nct = 0
    for fam in fams:
        q = fam.q
        L, U = ('F', THIS, fam.lo), ('F', THIS, fam.hi)
        for f in relevant_methods(prog, q):
            where = '%s::%s/%d' % (short(q), f.n if f.d.get('kind') != 'ctor' else 'ctor', len(f.params))
            if test_only(f) or f.n in SKIP or f.d.get('kind') in ('dtor',):
                continue
            if f.n == 'transfer':
                transfer(fam, f, rep, where, L, U)
                ntr += 1
                continue
            if f.d.get('kind') == 'ctor':
                if any(short(q) in p['t'] for p in f.params) or len(f.params) < 2:
                    continue
                ct = Ctor(fam)
                trs = [(tr, None, k) for tr, k in ct.traces(q, f)]
                nct += 1
            else:
                k, out, _ = fam.run(f)
                trs = [(st.cl[0], r, k) for st, r in out]
            loops = {}
            for n, s, b in (trs[0][2].loops if trs else []):
                loops.setdefault(id(n), (n, []))[1].append(b)
            nset += setters(fam, f, rep, where, trs, loops, L, U)
            nout += leaving(fam, f, rep, where, trs, loops)
    # functions of the unconstrained bases, as seen by the constrained classes
    for fam in fams:
        if fam.q not in (NUM, COL):
            continue
        for b in prog.bases_of(fam.q):
            if short(b) not in ('GParameterT', 'GParameterCollectionT'):
                continue
            over = {f.n for f in relevant_methods(prog, fam.q)}
            for f in relevant_methods(prog, b):
                if test_only(f) or f.n in SKIP or f.d.get('kind') in ('ctor', 'dtor') or f.n in over:
                    continue
                if not any(w in f.n.lower() for w in ('stream', 'tree', 'print', 'value')) or f.n.lower().startswith('set'):
                    continue
                k, out, _ = fam.run(f)
                loops = {}
                for n, s, bd in k.loops:
                    loops.setdefault(id(n), (n, []))[1].append(bd)
                nout += leaving(fam, f, rep, '%s as %s::%s/%d' % (short(fam.q), short(b), f.n, len(f.params)), [(st.cl[0], r, k) for st, r in out], loops)
    rep.floor('transfer functions', ntr, 3)
    rep.floor('setters', nset, 6)
    rep.floor('constructors', nct, 6)
    rep.floor('functions handing out values', nout, 6)
    rep.stat('transfer functions', ntr)
    rep.stat('functions storing values or boundaries', nset)
    rep.stat('functions handing out values', nout)


# ------------------------------------------------------------------------------------------ transfer
def transfer(fam, f, rep, where, L, U):
    k, out, _ = fam.run(f, no_enter=())
    val = ('P', 0, f.params[0]['n'])
    integer = 'int' in (f.d.get('ret') or '').lower()
    ok = True
    msg = ''
    same = True
    wide = set()
    for st, r in out:
        tr = st.cl[0]
        cs = cmps(tr)
        r = norm(deep(r)) if r is not None else None
        good = ranged(r, L, U, cs) if r is not None else False
        if not good and integer and r is not None:
            good = int_in_range(deep(r), val, L, U, cs)
        if not good:
            ok = False
            msg = 'a path returns %s, which is not known to be inside of the boundaries' % show(r)
        outside = any((a, b, t) in ((val, L, True), (U, val, True), (val, U, False)) for a, b, t in cs)
        if r != val and not outside:
            same = False
    rep.ob(where + '/range', ok and bool(out), f.loc, 'the mapping of a value always lies inside of the boundaries', msg)
    rep.ob(where + '/identity', same, f.loc, 'a value inside of the boundaries is left alone', 'a value inside of the boundaries is mapped to another one')
    if integer:
        bad = narrow(fam, f)
        rep.ob(where + '/width', not bad, f.loc, 'the mapping does not overflow', 'the calculation in line %s may exceed the value range of its type' % ', '.join(map(str, sorted(bad))))


def narrow(fam, f, seen=None):
    """lines of additive/multiplicative operations without any 64 bit operand"""
    seen = seen if seen is not None else set()
    decl = {}
    for n in walk(f.body):
        if n['k'] == 'decl':
            for v in n.get('d', []):
                decl[v.get('id')] = v.get('t', '')

    def w64(n):
        if n is None or not isinstance(n, dict):
            return False
        if n['k'] in ('paren', 'icast', 'expr') and n.get('e'):
            return w64(n['e'])
        if n['k'] == 'bin' and n.get('op') in ('+', '-', '*', '/', '%'):
            return w64(n.get('a')) or w64(n.get('b')) or 'long' in n.get('ta', '') or 'long' in n.get('tb', '')
        if n['k'] == 'ref':
            return '64' in n.get('t', '') or 'long' in n.get('t', '') or '64' in decl.get(n.get('id'), '')
        if n['k'] in ('cast', 'ctor', 'call', 'init'):
            return '64' in str(n.get('t', '')) or 'long' in str(n.get('t', '')) or '64' in str(n.get('q', ''))
        return False
    bad = set()
    for n in walk(f.body):
        if n['k'] == 'bin' and n.get('op') in ('+', '-', '*') and not w64(n):
            # positions in error messages and the like are of no interest
            if any(x['k'] in ('ref', 'member', 'call') for x in walk(n)) and arith(n):
                bad.add(n.get('l'))
    return bad


def arith(n):
    return not any(x['k'] == 'lit' and x.get('t') == 'str' for x in walk(n))


def show(t):
    if t is None:
        return 'nothing'
    if t[0] == 'P':
        return t[2]
    if t[0] == 'F':
        return t[2]
    if t[0] == 'C':
        return t[1] + '()'
    return 'a computed value'


# ------------------------------------------------------------------------------------------ setters
def setters(fam, f, rep, where, trs, loops, L, U):
    """functions which store values handed in by the caller, or boundaries"""
    anyb = any(x[0] == 'bnd' for tr, r, k in trs for x in tr)
    params = {('P', i, p['n']) for i, p in enumerate(f.params)}
    fromp = lambda t: mentions(t, lambda y: y in params and is_value(f, y))
    anyv = any(x[0] == 'val' for tr, r, k in trs for x in tr) or any(x[0] == 'val' for n, bs in loops.values() for b in bs for x in b)
    if not anyb and not anyv:
        return 0
    order = inr = src = drw = True
    cov = {i: trs[0][2].coverage(n) for i, (n, bs) in loops.items()}
    for tr, r, k in trs:
        cs = cmps(tr)
        lo, hi = L, U
        for x in tr:
            if x[0] == 'bnd':
                if x[1] == fam.lo:
                    lo = x[2]
                else:
                    hi = x[2]
        if anyb:
            if not any(x[0] == 'bnd' for x in tr):
                continue
            if not limits(lo, hi) and not below(lo, hi, cs):
                order = False
        last = None
        after = True
        for i, x in enumerate(tr):
            if x[0] == 'val':
                last = (i, x[2])
                d = draw(x[2]) or draw(prior(x[2]))
                if d is not None:
                    drw = drw and d[0] in (lo, L) and (d[1] in (hi, U) or prior(hi) == d[1])
        if fam.own is None:
            if last is None:
                if anyb:
                    inr = False
                continue
            i, v = last
            if not fits(v, lo, hi, cs, any(x[0] == 'bnd' for x in tr[i:]), limits(lo, hi)):
                if draw(v) is None and (fromp(v) or anyb):
                    inr = False
            if anyb and f.d.get('kind') != 'ctor' and raw_outside(v, own_raw(fam)):
                src = False
        else:
            vals = [x for x in tr if x[0] == 'val']
            for x in vals:
                if not ranged(x[2], lo, hi, cs) and not (norm(x[2]) or ('',))[:2] == ('C', 'transfer') and fromp(x[2]) and draw(x[2]) is None:
                    inr = False
    if fam.own is not None and trs:
        # element-wise
        for tr, r, k in trs[:1]:
            pass
        bnds = {(dict((x[1], x[2]) for x in tr if x[0] == 'bnd').get(fam.lo, L), dict((x[1], x[2]) for x in tr if x[0] == 'bnd').get(fam.hi, U)) for tr, r, k in trs if not anyb or any(x[0] == 'bnd' for x in tr)}
        checked = False
        for i, (n, bs) in loops.items():
            c = cov[i]
            full = c is not None and (c[0] in (THIS, ('F', THIS, fam.own)))
            good = bool(bs)
            for b in bs:
                cs = cmps(b)
                el = []
                for x in b:
                    if x[0] == 'val':
                        el.append(x[2])
                        d = draw(x[2])
                        if d is not None:
                            for lo, hi in bnds:
                                drw = drw and d[0] in (lo, L) and (d[1] in (hi, U) or prior(hi) == d[1])
                    if x[0] == 'push':
                        el.append(x[2])
                cand = {a for a, b_, t in cs} | {b_ for a, b_, t in cs} | set(el)
                isr = own_raw(fam)
                for lo, hi in bnds:
                    if not any(v not in (lo, hi) and ranged(v, lo, hi, cs) and (v in el or v[0] in ('X', 'elem') or (v[0] == 'C' and v[1] in ('at', '[]', 'operator[]', 'transfer')) or isr(v)) for v in cand if v is not None):
                        good = False
            if full and good:
                checked = True
        ctor = f.d.get('kind') == 'ctor'
        if anyb and not ctor and not checked and not all(limits(lo, hi) for lo, hi in bnds):
            inr = False
        # what is shown to lie inside must be what is stored, i.e. the mapping of the old value
        if anyb and not ctor:
            for n, bs in loops.values():
                for b in bs:
                    for x in b:
                        if x[0] == 'push' and raw_outside(x[2], own_raw(fam)):
                            src = False
        if ctor and anyb:
            # the initial value of all elements
            for tr, r, k in trs:
                b = dict((x[1], x[2]) for x in tr if x[0] == 'bnd')
                lo, hi = b.get(fam.lo, L), b.get(fam.hi, U)
                for i, p in enumerate(f.params):
                    t = ('P', i, p['n'])
                    if 'size' in p['t'] or t in (lo, hi) or prior(hi) == t:
                        continue
                    cands = [t, ('C', 'float_prior', None, (t,))]
                    if not any(ranged(c, lo, hi, cmps(tr)) for c in cands):
                        inr = False
    if anyb:
        rep.ob(where + '/order', order, f.loc, 'boundaries are never stored the wrong way round', 'a path stores a lower boundary above the upper one')
        rep.ob(where + '/kept', src, f.loc, 'a change of the boundaries does not change a visible value', 'the values stored anew are not the visible ones')
    rep.ob(where + '/accepted', inr, f.loc, 'only values inside of the boundaries are accepted', 'a path stores a value or boundaries without knowing that the value is inside')
    rep.ob(where + '/drawn', drw, f.loc, 'random values are drawn from the range given by the boundaries', 'a random value is drawn from another range')
    return 1


def is_value(f, y):
    t = f.params[y[1]]['t']
    return 'GRandom' not in t and 'activityMode' not in t and 'GObject' not in t and 'vector' not in t


def limits(lo, hi):
    """the largest range there is"""
    return lo is not None and lo[0] == 'C' and lo[1] == 'lowest' and hi is not None and hi[0] == 'C' and hi[1] == 'highest'


def fits(v, lo, hi, cs, moved, maxi):
    if ranged(v, lo, hi, cs):
        return True
    n = norm(v)
    return n is not None and n[:2] == ('C', 'transfer') and not moved


# ------------------------------------------------------------------------------------------ values leaving the object
def leaving(fam, f, rep, where, trs, loops):
    if f.n in ('getInternalValue',) or f.d.get('kind') == 'ctor':
        return 0
    isr = own_raw(fam)
    bad = None
    some = False
    ret = (f.d.get('ret') or '')
    for tr, r, k in trs:
        if r is not None and ret not in ('void', 'bool') and '&' not in ret:
            if mentions(r, isr) or mentions(r, lambda y: y[0] == 'C' and y[1] == 'transfer'):
                some = True
            if raw_outside(subst(deep(r), k.bounds(tr)), isr):
                bad = 'returned'
    allrec = [x for tr, r, k in trs for x in tr] + [x for n, bs in loops.values() for b in bs for x in b]
    for x in allrec:
        ts = (x[2],) if x[0] == 'push' and x[1] is not None and (f.d.get('const') or x[1][0] in ('P', 'X', 'C')) else x[2] if x[0] == 'out' else ()
        for t in ts:
            if t is not None and (mentions(t, isr) or mentions(t, lambda y: y[0] == 'C' and y[1] in ('transfer', 'value'))):
                some = True
            if raw_outside(t, isr):
                bad = 'handed out'
    if some:
        rep.ob(where + '/visible', bad is None, f.loc, 'only values mapped into the boundaries leave the object', 'an internal value is %s without being mapped into the boundaries' % bad)
    return 1 if some else 0


register('C19', run, 'all',
         'every path through the mapping functions, setters, constructors and value-returning functions of the constrained parameters: known comparisons, polynomial normal forms of integer mappings, provenance of values that are stored or handed out',
         'what leaves a constrained parameter is a mapped value inside of its boundaries; boundaries and values are only accepted if they fit together')
