"""C20: better solutions rank first, for minimisation and for maximisation."""
import itertools
from fractions import Fraction
from facts import walk, AnalysisBroken
from flow import *
from rules.registry import register
from rules.matrix import short
from rules.c_workers import plain, calls_in, nm
from rules.c_broker import Rec, key, paths
from rules.loops import LoopRec
from rules.locks import run_lambda

OA = 'G_OptimizationAlgorithm_Base'
SORTS = ('sort', 'stable_sort', 'partial_sort', 'nth_element', 'unique', 'max_element', 'min_element', 'partial_sort_copy', 'lower_bound', 'upper_bound', 'equal_range', 'make_heap', 'is_sorted')
FIT = ('transformed_fitness', 'raw_fitness', 'evaluation', 'getFitnessTuple', 'fitness')
FRONT = ('isparent', 'isonparetofront')
POSITION = ('collectionposition', 'neighborhood')
HI, LO = Fraction(10 ** 9), Fraction(-10 ** 9)


# ---------------------------------------------------------------- decision tables
class Dec(Client):
    """follows the free helper functions and plain accessors of the code base; records the branches taken"""
    max_depth = 6
    max_states = 3000

    def __init__(self, names=(), stop=()):
        self.names = names
        self.stop = stop

    def relevant(self, f):
        return f.body is not None and f.n not in self.stop and (f.n in self.names or (not f.cls and (f.q or '').startswith('Gem::') and 'exception' not in f.q))

    def branch(self, t, truth, st, node, func):
        return st if t is None else st.w(cl=st.cl + ((t, truth),))


def canon(t):
    """comparable form of a term: no pointers, no conversions"""
    t = key(t)
    if t is None:
        return None
    if t[0] == 'K' and len(t[2]) == 1:
        return canon(t[2][0])
    return tuple(canon(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else tuple(canon(y) if isinstance(y, tuple) and y and isinstance(y[0], str) else y for y in x) if isinstance(x, tuple) else x for x in t)


def calc(t, leaf):
    """value of a term under an assignment of its leaves; None if it is not known"""
    t = canon(t)
    if t is None:
        return None
    v = leaf(t)
    if v is not None:
        return Fraction(v)
    k = t[0]
    if k == 'L':
        x = str(t[2])
        if x in ('true', 'false'):
            return Fraction(x == 'true')
        try:
            return Fraction(x.rstrip('fFlLuU'))
        except ValueError:
            return None
    if k == 'C' and t[1] in ('highest', 'lowest', 'max', 'infinity') and t[2] is None and not t[3]:
        return LO if t[1] == 'lowest' else HI
    if k == 'C' and t[1] in ('min', 'max') and len(t[3]) == 2:
        a, b = calc(t[3][0], leaf), calc(t[3][1], leaf)
        return None if a is None or b is None else (min if t[1] == 'min' else max)(a, b)
    if k == 'C' and t[1] in ('numeric_cast', 'bool', 'double', 'fabs', 'abs') and len(t[3]) == 1:
        v = calc(t[3][0], leaf)
        return abs(v) if v is not None and t[1] in ('fabs', 'abs') else v
    if k == 'U':
        x = calc(t[2], leaf)
        return None if x is None else Fraction(not x) if t[1] in ('!', 'not') else -x if t[1] == '-' else x if t[1] == '+' else None
    if k == 'B':
        o = t[1]
        a, b = calc(t[2], leaf), calc(t[3], leaf)
        if o == '&&' and (a == 0 or b == 0):
            return Fraction(0)
        if o == '||' and (a or b):
            return Fraction(1)
        if a is None or b is None:
            return None
        if o in ('/', '%') and b == 0:
            return None
        if o == '/':
            return a / b
        if o == '%':
            return a % b
        return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '<': lambda: Fraction(a < b), '>': lambda: Fraction(a > b), '<=': lambda: Fraction(a <= b), '>=': lambda: Fraction(a >= b),
                '==': lambda: Fraction(a == b), '!=': lambda: Fraction(a != b), '&&': lambda: Fraction(bool(a and b)), '||': lambda: Fraction(bool(a or b)), '^': lambda: Fraction(bool(a) != bool(b))}.get(o, lambda: None)()
    return None


def outcome(runs, leaf):
    """the values the function can have under an assignment; runs = [(branches, returned term)]"""
    r = set()
    for br, ret in runs:
        ok = True
        for t, truth in br:
            v = calc(t, leaf)
            if v is not None and bool(v) != truth:
                ok = False
                break
        if ok:
            r.add(calc(ret, leaf))
    return r


def leaves(runs):
    """the terms the function is decided by"""
    r = set()

    def go(t):
        t = canon(t)
        if t is None or t[0] in ('L', 'E'):
            return
        if t[0] == 'U':
            go(t[2])
        elif t[0] == 'B' and t[1] in ('+', '-', '*', '/', '<', '>', '<=', '>=', '==', '!=', '&&', '||', '^'):
            go(t[2]); go(t[3])
        elif t[0] == 'C' and t[1] in ('highest', 'lowest', 'max', 'min', 'infinity', 'numeric_cast', 'bool', 'double', 'fabs', 'abs'):
            for a in t[3]:
                go(a)
        else:
            r.add(t)
    for br, ret in runs:
        for t, _ in br:
            go(t)
        go(ret)
    return r


def enum_of(prog, runs, t):
    """the enumeration a leaf is compared with"""
    for br, ret in runs:
        for b in [x for x, _ in br] + [ret]:
            for s in subterms(canon(b) or ()):
                if s[0] == 'B' and s[1] in ('==', '!='):
                    for a, e in ((s[2], s[3]), (s[3], s[2])):
                        if a == t and e is not None and e[0] == 'E':
                            return e[1].rsplit('::', 1)[0]
    return None


def enum_leaf(prog):
    num = {}
    for q, e in prog.enums.items():
        for i, v in enumerate(e['vals']):
            num[q + '::' + v['n']] = 1000 + (int(v['v']) if str(v.get('v')).lstrip('-').isdigit() else i)
    return num


def lower_better(m):
    """which direction an enumerator stands for"""
    m = m.split('::')[-1].upper()
    return True if m in ('MINIMIZE', 'LOWERISBETTER') else False if m in ('MAXIMIZE', 'HIGHERISBETTER') else None


def run_free(prog, f, client, args=None, cl=None):
    out, thrown = Interp(prog, client, cl).run(f, (), args)
    return [(st.cl, r) for st, r in out]


# ---------------------------------------------------------------- comparators
def comparators(prog):
    """(function, algorithm call, lambda node, algorithm) of the comparison functions passed to sorting algorithms"""
    seen = set()
    for f in prog.funcs:
        if not f.body or f.d.get('mode') == 'inst' or '/tests/' in f.loc:
            continue
        named = {}
        for x in walk(f.body):
            if x['k'] == 'decl':
                for d in x.get('d') or []:
                    if d.get('i') and d['i']['k'] == 'lambda':
                        named[d['id']] = d['i']
        for x in walk(f.body):
            if x['k'] == 'call' and nm(x) in SORTS:
                for a in reversed(x.get('a') or []):
                    while a is not None and a['k'] in ('cast', 'ctor') and (a.get('s') or len(a.get('a') or []) == 1):
                        a = a.get('s') or a['a'][0]
                    if a is not None and a['k'] == 'un' and a.get('op') == '&':
                        a = a['s']
                    l = a if a is not None and a['k'] == 'lambda' else named.get(a.get('id')) if a is not None and a['k'] == 'ref' else None
                    if l is None and a is not None and a['k'] == 'ref' and a.get('rk') == 'func':
                        gs = [g for g in prog.byq.get(a.get('q'), ()) if g.body is not None and len(g.params) == 2]
                        if len(gs) == 1:
                            yield f, x, gs[0], nm(x)
                            break
                    if isinstance(l, dict) and len(l['p']) == 2:
                        k = (f.loc, l.get('loc') or l.get('l'), nm(x), id(l) if not (l.get('loc') or l.get('l')) else 0)
                        if k not in seen:
                            seen.add(k)
                            yield f, x, l, nm(x)
                        break


def cmp_runs(prog, f, l):
    if not isinstance(l, dict):
        return [(tuple((canon(t), v) for t, v in br), canon(r)) for br, r in run_free(prog, l, Dec(), [('#', 0), ('#', 1)], l.cls)]
    c = Dec()
    it = Interp(prog, c, f.cls)
    out = run_lambda(it, f, l, ())
    a, b = [('V', p['id'], p['n']) for p in l['p']]

    def sub(t):
        t = canon(t)
        return mapterm(t, {a: ('#', 0), b: ('#', 1)})
    return [(tuple((sub(t), v) for t, v in st.cl), sub(r)) for st, r in out]


def mapterm(t, m):
    if not isinstance(t, tuple):
        return t
    if t in m:
        return m[t]
    return tuple(mapterm(x, m) for x in t)


def one(t):
    """a leaf with the compared object taken out, and which of the two it belongs to"""
    who = {x[1] for x in subterms(t) if x[0] == '#'}
    return mapterm(t, {('#', 0): ('#', '?'), ('#', 1): ('#', '?')}), who


def names_in(t):
    return {x[1] for x in subterms(t) if x[0] == 'C'} | {x[2] for x in subterms(t) if x[0] == 'F'}


DOM = (LO, 0, 1, HI)


def tables(prog, runs, enums):
    """the comparison decided for all pairs of key values: (key shapes, {enumerator: {(x, y): bool}}) or None"""
    ls = leaves(runs)
    shapes, modes, other = set(), {}, set()
    for t in ls:
        s, who = one(t)
        e = enum_of(prog, runs, t)
        if e is not None:
            modes.setdefault(e, set()).add(t)
        elif len(who) == 1:
            shapes.add(s)
        elif not who:
            other.add(t)
        else:
            return None
    if len(shapes) > 1:
        shapes.discard(('#', '?'))
    if not shapes or len(shapes) > 2 or len(other) > 1 or len(modes) > 1:
        return None
    shapes = sorted(shapes, key=str)
    dom = list(itertools.product(DOM if len(shapes) == 1 else (0, 1, 2), repeat=len(shapes)))
    r = {}
    for e, v in [(e, v['n']) for e in modes for v in (prog.enums[e]['vals'] if e in prog.enums else [])] or [(None, None)]:
        for o in ((0, 1) if other else (0,)):
            T = {}
            for x in dom:
                for y in dom:
                    def leaf(t):
                        if t[0] == 'E':
                            return enums.get(t[1])
                        if e is not None and t in modes[e]:
                            return enums[e + '::' + v]
                        if t in other:
                            return o
                        if t in ls:
                            s, who = one(t)
                            return 1 if s not in shapes else (x, y)[next(iter(who))][shapes.index(s)]
                        return None
                    z = outcome(runs, leaf)
                    if len(z) != 1 or None in z:
                        return None
                    T[x, y] = next(iter(z))
            if r.setdefault(v, T) != T:
                return None
    return shapes, dom, r


def weak_order(T, dom):
    inc = lambda x, y: not T[x, y] and not T[y, x]
    return all(not T[x, x] for x in dom) and all(not (T[x, y] and T[y, x]) for x in dom for y in dom) and all(not (T[x, y] and T[y, z]) or T[x, z] for x in dom for y in dom for z in dom) \
        and all(not (inc(x, y) and inc(y, z)) or inc(x, z) for x in dom for y in dom for z in dom)


def comparator(prog, rep, f, l, algo, enums):
    """-> (key shape, direction) of a comparator or None"""
    runs = cmp_runs(prog, f, l)
    tb = tables(prog, runs, enums) if runs else None
    if tb is None:
        return None
    shapes, dom, tabs = tb
    nms = {n for s in shapes for n in names_in(s)}
    where = '%s::%s/%s by %s' % (short(f.cls or ''), f.n, algo, ','.join(sorted(nms or {'value'})))
    info = set()
    for v, T in tabs.items():
        mode = '' if v is None else '/' + v
        if algo == 'unique':
            ok = all(T[x, x] for x in dom) and all(bool(T[x, y]) == bool(T[y, x]) for x in dom for y in dom) and all(not (T[x, y] and T[y, z]) or T[x, z] for x in dom for y in dom for z in dom)
            rep.ob(where + mode, ok, f.loc, 'equivalence', 'the comparison by which duplicates are found is not an equivalence')
            continue
        rep.ob(where + mode + '/order', weak_order(T, dom), f.loc, 'strict-weak-order', 'the comparison function passed to %s is not a strict weak order' % algo)
        asc = all(bool(T[x, y]) == (x < y) for x in dom for y in dom)
        desc = all(bool(T[x, y]) == (x > y) for x in dom for y in dom)
        info.add('<' if asc else '>' if desc else '?')
        if len(shapes) != 1:
            continue
        if nms & set(FIT):
            lb = lower_better(v) if v is not None else None
            if lb is not None:
                rep.ob(where + mode + '/better-first', asc if lb else desc, f.loc, 'better-first', 'with %s, worse evaluations are put before better ones' % v)
            else:
                rep.ob(where + '/better-first', False, f.loc, 'better-first', 'solutions are ordered by a fitness without regard to the direction of optimisation')
            rep.stat('fitness_orders')
        if any(x in n.lower() for n in nms for x in FRONT):
            rep.ob(where + '/first', all(bool(T[x, y]) == (x > y) for x in ((0,), (1,)) for y in ((0,), (1,))), f.loc, 'marked-first', 'the marked individuals are not moved to the front')
        if any(x in n.lower() for n in nms for x in POSITION):
            rep.ob(where + '/position', asc, f.loc, 'positions', 'items are not put into the order of their positions')
    rep.stat('comparators')
    return tuple(shapes), tuple(sorted(info))


def kernels(prog, rep, enums):
    """the functions which define what is better, worse, best and worst"""
    n = 0
    A, B = ('#', 0), ('#', 1)
    for f in prog.funcs:
        if not f.body or f.d.get('mode') == 'inst' or '/tests/' in f.loc or f.n not in ('isBetter', 'isWorse', 'minOnly_transformed_fitness', 'getWorstCase', 'getBestCase'):
            continue
        where = f.q.replace('Gem::', '') + '(%s)' % ','.join(p['t'].split('<')[0].replace('const ', '').replace('&', '').strip() for p in f.params)
        d = Dec(names=('isBetter', 'isWorse', 'getWorstCase', 'getBestCase') if f.cls else ())
        args = [A, B] if f.n in ('isBetter', 'isWorse') and len(f.params) >= 2 else [A] if f.n.startswith('minOnly') else []
        runs = [(tuple((canon(t), v) for t, v in br), canon(r)) for br, r in run_free(prog, f, d, args, f.cls)]
        if f.n in ('isBetter', 'isWorse') and len(f.params) in (2, 3):
            tb = tables(prog, runs, enums)
            if tb is None or len(tb[0]) != 1 or any(lower_better(v or '') is None for v in tb[2]):
                two = mixed(prog, runs, enums)
                if two is None:
                    fw = forwarded(runs)
                    if fw is None:
                        rep.stat('kernels_not_decided')
                        continue
                    n += 1
                    rep.ob(where + '/forwarded', fw == (f.n == 'isBetter'), f.loc, 'comparison', '%s hands its operands on in the wrong order' % f.n)
                    continue
                tb = two
            n += 1
            for v, T in tb[2].items():
                lb = lower_better(v)
                for x in tb[1]:
                    for y in tb[1]:
                        bet = x < y if lb else x > y
                        ok = bool(T[x, y]) == bet if f.n == 'isBetter' else x == y or bool(T[x, y]) == (not bet)
                        rep.ob('%s/%s' % (where, v), ok, f.loc, 'comparison', '%s is not decided by the strict order of the values when the mode is %s' % (f.n, v))
        elif f.n.startswith('minOnly'):
            fit = [t for t in leaves(runs) if t[0] == 'C' and t[1] in FIT]
            rep.ob(where + '/criterion', len(fit) == 1 and len(f.params) == 2 and fit[0][3] and fit[0][3][0] == ('P', 1, f.params[1]['n']), f.loc, 'criterion', 'the fitness taken is not the one of the requested criterion')
            v = solve(prog, runs, enums, lambda m, x: -x if not m else x)
            if v is None:
                rep.stat('kernels_not_decided')
                continue
            n += 1
            for m, vals in v.items():
                ok = all((vals[x] < vals[y]) == ((x < y) if lower_better(m) else (x > y)) for x in vals for y in vals)
                rep.ob('%s/%s' % (where, m), ok, f.loc, 'order-reversal', 'the transformed values are not ordered best first when the mode is %s' % m)
        else:
            v = solve(prog, runs, enums, None)
            if v is None:
                v = {}
                for b in (0, 1):
                    z = outcome(runs, lambda t: b if t[0] == 'P' else enums.get(t[1]) if t[0] == 'E' else None)
                    if len(z) == 1 and None not in z:
                        v['MAXIMIZE' if b else 'MINIMIZE'] = next(iter(z))
                if len(v) != 2:
                    rep.stat('kernels_not_decided')
                    continue
            n += 1
            for m, val in v.items():
                w = lower_better(m) == (f.n == 'getWorstCase')
                rep.ob('%s/%s' % (where, m), val == (HI if w else LO), f.loc, 'extreme', '%s is not the %s possible value when the mode is %s' % (f.n, 'worst' if f.n == 'getWorstCase' else 'best', m))
    return n


def forwarded(runs):
    """a comparison that hands its operands to another comparison: does it report better(first, second)?"""
    if len(runs) != 1 or runs[0][0]:
        return None
    r, neg = runs[0][1], False
    while r is not None and r[0] == 'U' and r[1] == '!':
        r, neg = r[2], not neg
    if r is None or r[0] != 'C' or r[1] not in ('isBetter', 'isWorse') or len(r[3]) < 2:
        return None
    who = []
    for a in r[3][:2]:
        if a[0] == 'C' and a[1] in FIT and len(a[3]) == 1:
            a = a[3][0]
        if a[0] != '#':
            return None
        who.append(a[1])
    if sorted(who) != [0, 1]:
        return False
    return who == [0, 1] and (r[1] == 'isBetter') != neg


def solve(prog, runs, enums, values):
    """{enumerator: value} or, with a key, {enumerator: {key value: value}}"""
    ls = leaves(runs)
    modes = {}
    keys = set()
    for t in ls:
        e = enum_of(prog, runs, t)
        if e is not None:
            modes.setdefault(e, set()).add(t)
        elif t[0] == 'C' and t[1] in FIT:
            keys.add(t)
    if len(modes) != 1 or len(keys) != (1 if values else 0):
        return None
    e = next(iter(modes))
    r = {}
    for v in (prog.enums[e]['vals'] if e in prog.enums else []):
        if lower_better(v['n']) is None:
            return None
        d = {}
        for x in DOM if values else (0,):
            def leaf(t):
                if t[0] == 'E':
                    return enums.get(t[1])
                if t in modes[e]:
                    return enums[e + '::' + v['n']]
                return x if t in keys else 1 if t in ls else None
            z = outcome(runs, leaf)
            if len(z) != 1 or None in z:
                return None
            d[x] = next(iter(z))
        r[v['n']] = d if values else d[0]
    return r


def mixed(prog, runs, enums):
    """comparison of an object's key with a value"""
    ls = {t for t in leaves(runs) if any(x[0] == '#' for x in subterms(t)) and enum_of(prog, runs, t) is None}
    by = {}
    for t in ls:
        by.setdefault(next(x[1] for x in subterms(t) if x[0] == '#'), set()).add(t)
    m = {}
    for i, ts in by.items():
        ts = {t for t in ts if t != ('#', i)} or ts
        if len(ts) != 1:
            return None
        m[next(iter(ts))] = ('#', i)
    if set(by) != {0, 1}:
        return None
    runs = [(tuple((mapterm(t, m), v) for t, v in br), mapterm(r, m)) for br, r in runs]
    tb = tables(prog, runs, enums)
    return tb if tb and all(v is not None and lower_better(v) is not None for v in tb[2]) else None


# ---------------------------------------------------------------- replacement of the best known solution
STRIP = set(FIT) | {'getPersonalBestQuality', 'getPersonalBest', 'clone', 'getFitnessTuple'}


def fitness_index(t):
    return t is not None and (t[0] == 'G' or t[0] == 'L' and t[1] == 'ta' or 'FITNESS' in str(t))


def root(t):
    """the solution (or record of a solution) a term speaks about"""
    t = canon(t)
    while t is not None:
        if t[0] == 'X' and fitness_index(t[2]):
            t = t[1]
        elif t[0] == 'C' and t[1] in STRIP and t[2] is not None:
            t = t[2]
        elif t[0] == 'C' and t[1].startswith('minOnly') and t[2] is None and t[3]:
            t = t[3][0]
        elif t[0] == 'C' and t[1] in ('make_tuple', 'tuple') and t[3] and len({root(x) for x in t[3]}) == 1:
            t = root(t[3][0])
        elif t[0] == 'F' and 'personal_best' in t[2]:
            t = t[1]
        elif t[0] == 'C' and t[1] == 'getPersonalityTraits':
            return ('PT', root(t[2]))
        else:
            return t
    return None


def compared(t):
    """(better, reference) if the condition says that one solution is better than another"""
    t = canon(t)
    if t[0] == 'C' and t[1] == 'isBetter' and len(t[3]) in (2, 3):
        return t[3][0], t[3][1], 'isBetter'
    if t[0] == 'B' and t[1] == '<' and all(x is not None and x[0] == 'C' and x[1].startswith('minOnly') for x in (t[2], t[3])):
        return t[2], t[3], 'minOnly'
    return None


def replaced(ev):
    """(target, source) of an event which replaces one solution by another"""
    if ev.kind == 'assign' and ev.lhs is not None and ev.rhs is not None and ev.op in (None, '', '='):
        return ev.lhs, ev.rhs
    if ev.kind == 'call' and ev.name in ('load', 'load_', 'registerPersonalBest') and ev.base is not None and ev.args:
        return ev.base, ev.args[0]
    if ev.kind == 'call' and ev.name in ('operator=', '=') and ev.base is not None and len(ev.args) == 1:
        return ev.base, ev.args[0]
    return None


class BestRec(LoopRec):
    max_states = 1500

    def relevant(self, f):
        return f.cls in self.hier and calls_in(f.body, 'isBetter')


def replacements(prog, rep, oas):
    n = 0
    for q in oas:
        for f in plain(prog, q):
            if f.n in ('isBetter', 'isWorse') or not (calls_in(f.body, 'isBetter') or raw_comparison(f.body)):
                continue
            hier = {q} | set(prog.bases_of(q))

            def sel(ev, st):
                r = replaced(ev)
                return ('put', canon(r[0]), canon(r[1])) if r and canon(r[0]) is not None and canon(r[1]) is not None else None

            def br(t, truth, st):
                c = compared(t) if t is not None else None
                if c:
                    return ('cmp', c[0], c[1], truth, c[2])
                t = canon(t)
                if t is not None and t[0] == 'B' and t[1] == '<':
                    a, b = t[2], t[3]
                    if a is not None and b is not None and all(is_fitness(x) for x in (a, b)):
                        return ('raw', t)
                return None
            k = BestRec(hier, sel, br)
            out, thrown = Interp(prog, k, q).run(f, ((), ()))
            where = '%s::%s' % (short(q), f.n)
            segs = [(tr, True, nd) for nd, s, tr in k.loops] + [(st.cl[0], False, r) for st, r in out]
            used = {}
            isbool = (f.d.get('ret') or '') == 'bool'
            ties = {}
            for tr, inner, _ in segs:
                idx = [(r[1], r[2]) for r in tr if r[0] in ('put',) and r[1][0] == 'V']
                idx += [(('V', r[1]), r[2]) for r in tr if r[0] == 'set']
                for v, x in idx:
                    ties.setdefault(v[1], set()).add(x)
            for tr, inner, ret in segs:
                for i, c in enumerate(tr):
                    if c[0] == 'raw':
                        rep.ob(where + '/direction', False, f.loc, 'direction', 'two solutions are compared without regard to the direction of optimisation: ' + tshow(c[1])[:150])
                    if c[0] != 'cmp':
                        continue
                    A, B = root(c[1]), root(c[2])
                    if A is None or B is None or mentions(c[1], worst) and not any(r[0] == 'put' and r[1][0] == 'X' and root(r[1]) == A for r in tr[:i]):
                        continue
                    kk = where + '/' + (tshow(flat(B)) if B[0] != 'PT' else 'record of ' + tshow(B[1]))[:60]
                    seg = []
                    for r in tr[i + 1:]:
                        if r[0] == 'cmp' and (root(r[1]), root(r[2])) == (A, B):
                            break
                        if r[0] == 'body':
                            break
                        seg.append(r)
                    puts = [(root(r[1]), root(r[2])) for r in seg if r[0] == 'put'] + [(('V', r[1]), root(r[2])) for r in seg if r[0] == 'set']
                    toB = [y for x, y in puts if same(x, B)]
                    toA = [y for x, y in puts if same(x, A)]
                    u = used.setdefault((kk, c[4]), [False, False, set(), []])
                    if toB or toA:
                        u[0] = True
                    u[1] |= inner
                    if not inner or True:
                        u[2].add((c[3], bool(toB)))
                    if c[3]:
                        for y in toB:
                            rep.ob(kk + '/value', same(y, A) or tied(y, A, ties), f.loc, 'replaced-by-the-better', 'what is replaced by a better solution is not replaced by that solution but by ' + tshow(y)[:80])
                    else:
                        rep.ob(kk + '/kept', not any(same(y, A) or tied(y, A, ties) for y in toB), f.loc, 'replaced-only-by-better', 'the best known solution is replaced by one which is not better')
                    rep.ob(kk + '/other', not any(same(y, B) for y in toA), f.loc, 'better-not-overwritten', 'the better solution is overwritten by the reference it was compared with' if c[3] else 'a solution is overwritten by the one it was compared with')
                    if not inner and isbool and ret is not None:
                        v = litbool(canon(ret)) if canon(ret)[0] == 'L' else None
                        if v is not None:
                            u[3].append(v == c[3])
            for (kk, kind), (st, inner, pairs, rets) in used.items():
                n += 1
                if st:
                    rep.ob(kk + '/always', (True, False) not in pairs, f.loc, 'replaced-if-better', 'a better solution is found but the best known one is not replaced')
                elif rets:
                    rep.ob(kk + '/answer', all(rets), f.loc, 'answer', 'the function does not answer whether the solution is better')
                elif kind == 'isBetter' and not isbool:
                    rep.ob(kk + '/always', False, f.loc, 'replaced-if-better', 'a better solution is found but the best known one is not replaced')
            # what accumulators start from
            for nd, ini in k.inits.items():
                for vid, vals in ini.items():
                    if any(kk2 for tr, inner, _ in segs for kk2 in tr if kk2[0] == 'cmp' and kk2[4] == 'isBetter' and root(kk2[2]) is not None and root(kk2[2])[:2] == ('V', vid)):
                        for v in vals:
                            names = {x[1] for x in subterms(v) if x[0] == 'C'}
                            bad = 'getBestCase' in names or not any(x[0] in ('C', 'F', 'P', 'V') and x[1] not in ('make_tuple', 'make_pair', 'tuple', 'pair') for x in subterms(v))
                            rep.ob('%s/start of %s' % (where, vid_name(f, vid)), not bad, f.loc, 'starts-from-worst', 'the search for the best solution starts from ' + tshow(v)[:80])
    return n


def vid_name(f, vid):
    for x in walk(f.body):
        if x['k'] == 'decl':
            for d in x.get('d') or []:
                if d['id'] == vid:
                    return d['n']
    return 'the best'


def raw_comparison(body):
    """is there a comparison of two fitness values?"""
    fit = lambda e: any(y['k'] == 'call' and (nm(y) in FIT or nm(y) == 'get' and 'FITNESS' in str(y['f'])) for y in walk(e))
    return any(x['k'] == 'bin' and x['op'] in ('<', '>', '<=', '>=') and fit(x['a']) and fit(x['b']) for x in walk(body))


def is_fitness(t):
    return t is not None and (t[0] == 'C' and t[1] in FIT and t[2] is not None and t[2] != THIS or t[0] == 'X' and 'FITNESS' in str(t[2]))


def worst(t):
    return t[0] == 'C' and t[1] in ('getWorstCase', 'getBestCase')


def flat(t):
    """a term without the places where its variables were changed"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'V':
        return ('V', 0, '*')
    return tuple(flat(x) for x in t)


def same(a, b):
    """the same place, whatever its value"""
    if a is None or b is None:
        return False
    if a[0] == 'V' and b[0] == 'V':
        return a[1] == b[1]
    return a == b


def tied(y, A, ties):
    """y is the element of a container chosen together with the value A"""
    if y is None or A is None or A[0] != 'V':
        return False
    for v in ties.get(A[1], ()):
        r = root(v)
        if r is None or r[0] not in ('X', 'C'):
            continue
        # the container element the value was taken from, at an index kept in another variable
        cont, idx = (r[1], r[2]) if r[0] == 'X' else (r[2], r[3][0] if len(r[3]) == 1 else None)
        yc, yi = (y[1], y[2]) if y[0] == 'X' else (y[2], y[3][0] if y[0] == 'C' and len(y[3]) == 1 else None) if y[0] == 'C' else (None, None)
        if cont == yc and yi is not None and yi[0] == 'V' and idx is not None and any(canon(z) == canon(idx) for z in ties.get(yi[1], ())):
            return True
    return False


# ---------------------------------------------------------------- selection
def lin(t):
    """position in the population as a linear form over N (its end), P (number of parents) and other terms"""
    t = canon(t)
    if t is None:
        return None
    if t[0] == 'L':
        try:
            return {'1': int(str(t[2]).rstrip('uUlL'))}
        except ValueError:
            return None
    if t[0] == 'C' and t[1] in ('begin', 'cbegin'):
        return {}
    if t[0] == 'C' and t[1] in ('end', 'cend', 'size'):
        return {'N': 1}
    if parents(t):
        return {'P': 1}
    if t[0] == 'C' and t[1] in ('next', 'advance') and len(t[3]) in (1, 2):
        return add(lin(t[3][0]), lin(t[3][1]) if len(t[3]) == 2 else {'1': 1})
    if t[0] == 'B' and t[1] in ('+', '-'):
        return add(lin(t[2]), lin(t[3]), 1 if t[1] == '+' else -1)
    if t[0] == 'B' and t[1] == '*':
        a, b = lin(t[2]), lin(t[3])
        for x, y in ((a, b), (b, a)):
            if x is not None and y is not None and set(x) <= {'1'}:
                return {k: v * x.get('1', 0) for k, v in y.items() if v * x.get('1', 0)}
        return None
    if t[0] == 'K' and len(t[2]) == 1:
        return lin(t[2][0])
    return {t: 1} if t[0] in ('V', 'F', 'P') else None


def parents(t):
    return t is not None and (t[0] == 'F' and t[2] in ('m_n_parents',) or t[0] == 'C' and (t[1] == 'getNParents' or t[1] == 'min' and any(parents(x) for x in t[3])))


def add(a, b, s=1):
    if a is None or b is None:
        return None
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
    return {k: v for k, v in r.items() if v}


def covers(m, least):
    """m >= least for every number of parents"""
    d = add(m, least, -1)
    return d is not None and (d == {} or 'N' in m or all(k in ('1', 'P') and v > 0 for k, v in d.items()))


class SelRec(Rec):
    algo = True

    def relevant(self, f):
        return f.cls in self.hier and f.n not in self.no_enter


def selects(x, kinds):
    """a call that brings the best individuals to the front of a range"""
    return x['k'] == 'call' and id(x) in kinds and (nm(x) == 'partial_sort' or kinds[id(x)] == 'fitness' and nm(x) in ('sort', 'stable_sort', 'nth_element'))


def selectors(prog, q, kinds):
    """the functions which choose the parents, without the helpers they call for it"""
    cand = [g for g in plain(prog, q) if any(selects(x, kinds) or x['k'] == 'call' and nm(x) == 'swap_ranges' for x in walk(g.body))]
    callers = {}
    for h in plain(prog, q):
        for x in walk(h.body):
            if x['k'] == 'call' and nm(x) != h.n:
                callers.setdefault(nm(x), set()).add(h.n)
    names = {g.n for g in cand}
    return [g for g in cand if g.d.get('acc') == 'public' or g.d.get('virt') or not callers.get(g.n) or callers[g.n] - names]


def selection(prog, rep, q, f, kinds):
    """which individuals become parents, and in which order"""
    hier = {q} | set(prog.bases_of(q))

    def sel(ev, st):
        if ev.kind in ('algo', 'call') and ev.name in ('sort', 'stable_sort', 'partial_sort', 'nth_element'):
            a = [x for x in ev.args if x is None or x[0] != 'lam']
            pos = [lin(x) for x in a[:3 if ev.name in ('partial_sort', 'nth_element') else 2]]
            if len(pos) == 2:
                pos = [pos[0], pos[1], pos[1]]
            return ('sort', kinds.get(id(ev.node), 'any'), frz(pos), ev.name)
        if ev.kind == 'call' and ev.name == 'swap_ranges' and len(ev.args) == 3:
            return ('swap', frz([lin(x) for x in ev.args]))
        if ev.kind == 'call' and ev.name in ('shuffle', 'random_shuffle') and len(ev.args) >= 2:
            return ('shuffle', frz([lin(x) for x in ev.args[:2]]))
        return None

    def br(t, truth, st):
        t = canon(t)
        c = compared(t)
        if c:
            return ('cmp', frz([lin(root(x)) for x in c[:2]]), truth)
        if t[0] == 'B' and t[1] == '<':
            a, b = lin(t[2]), lin(t[3])
            if a is not None and b is not None and ({'P': 1} in (a, b)):
                return ('size', frz([a, b]), truth)
        return None
    stop = {g.n for g in selectors(prog, q, kinds) if g is not f and g.n != f.n} | {'aDominatesB', 'updateTemperature', 'saProb'}
    k = SelRec(hier, sel, br, None, stop)
    out, thrown = Interp(prog, k, q).run(f, ((), ()))
    where = '%s::%s' % (short(q), f.n)
    n = 0
    P = {'P': 1}
    for st, r in out:
        tr = [x for x in st.cl[0] if x[0] in ('sort', 'swap', 'shuffle', 'cmp', 'size')]
        if not any(x[0] == 'sort' for x in tr):
            continue
        n += 1
        best = []                # (start, number) of blocks holding the best of everything from start
        done = False             # the parents are in place
        marked = False
        for i, x in enumerate(tr):
            if x[0] == 'sort':
                a, m, e = unfrz(x[2])
                if a is None or m is None or e is None:
                    continue
                if x[1] == 'front':
                    ok = a == {} and e == {'N': 1}
                    rep.ob(where + '/front', ok, f.loc, 'whole-population', 'not the whole population is sorted by the Pareto front')
                    marked = True
                    best, done = [], False
                    continue
                if x[1] == 'other':
                    continue
                if x[3] in ('partial_sort', 'nth_element'):
                    rep.ob(where + '/pool', e == {'N': 1}, f.loc, 'whole-pool', 'the best individuals are not selected among all candidates')
                    if not marked:
                        rep.ob(where + '/number', covers(add(m, a, -1), P), f.loc, 'enough-selected', 'fewer individuals are selected than there are parents')
                    else:
                        rep.ob(where + '/number', covers(m, P), f.loc, 'enough-selected', 'the places of parents that are left over are not filled with the best other individuals')
                had = any(x[0] == P for x in best)
                best.append((a, add(m, a, -1)))
                if a == {} and covers(m, P):
                    done = marked or e == {'N': 1} or had or done
            elif x[0] == 'swap':
                f1, l1, f2 = unfrz(x[1])
                if None in (f1, l1, f2):
                    continue
                num = add(l1, f1, -1)
                got = any(a == f2 and covers(c, num) for a, c in best)
                rep.ob(where + '/promoted', got, f.loc, 'best-promoted', 'the individuals that are made parents are not the best ones of the candidates')
                rep.ob(where + '/promoted-all', l1 == P, f.loc, 'all-parents-replaced', 'the range of individuals that become parents does not end with the last parent')
                cm = [y for y in tr[:i] if y[0] == 'cmp']
                if f1 == {}:
                    keep = [y for y in cm if better_child(y) is False]
                    rep.ob(where + '/best-parent', not keep, f.loc, 'best-kept', 'the best parent is replaced although no child is better')
                elif f1 == {'1': 1}:
                    rep.ob(where + '/best-parent', any(better_child(y) is False for y in cm), f.loc, 'best-kept', 'the best parent is kept although a better child was found')
                else:
                    rep.ob(where + '/promoted-all', False, f.loc, 'all-parents-replaced', 'not all parents are replaced')
                done = got
                best = []
            elif x[0] == 'shuffle':
                a, e = unfrz(x[1])
                if a is None or e is None:
                    continue
                rep.ob(where + '/shuffle', marked and a == {} and not covers(e, {'N': 1}), f.loc, 'shuffled-front', 'individuals which are not on the Pareto front are mixed with those which are')
                done = False
                best = []
        last = [x for x in tr if x[0] in ('sort', 'swap', 'shuffle')]
        rep.ob(where + '/best-first', done, f.loc, 'best-first', 'on some path the parents are not the best individuals in order of their fitness')
        if marked:
            sizes = [(unfrz(x[1]), x[2]) for x in tr if x[0] == 'size']
            enough = any(b == P and not t for (a, b), t in sizes) or any(a == P and t for (a, b), t in sizes)
            fills = [unfrz(y[2]) for y in tr if y[0] == 'sort' and y[1] == 'fitness']
            few = [a for (a, b), t in sizes if b == P and t]
            if not enough:          # possibly fewer on the front than parents
                rep.ob(where + '/filled', any(y[0] in few if few else y[0] not in (None, {}) for y in fills), f.loc, 'filled-up', 'if there are fewer individuals on the Pareto front than parents, the best of the others are not selected')
        del last
    return n


def better_child(y):
    """truth of 'the best child is better than the best parent' on this path, None if the comparison says something else"""
    a, b = unfrz(y[1])
    if a == {'P': 1} and b == {}:
        return y[2]
    return None


def frz(ps):
    return tuple(None if x is None else tuple(sorted(x.items(), key=str)) for x in ps)


def unfrz(ps):
    return [None if x is None else dict(x) for x in ps]


def modes(prog, rep, q, kinds):
    """each selection mode uses the candidates it says, and all of them in the first iteration"""
    fs = {f.n: f for f in plain(prog, q)}
    pool = {}
    for n, f in fs.items():
        hit = [x for x in walk(f.body) if selects(x, kinds)]
        if hit:
            swap = any(x['k'] == 'call' and nm(x) == 'swap_ranges' for x in walk(f.body))
            pareto = any(kinds.get(id(x)) == 'front' for x in walk(f.body) if x['k'] == 'call')
            pool[n] = (pareto, swap or any(x['k'] == 'call' and nm(x) == 'setIsNotOnParetoFront' for x in walk(f.body)) and only_children(f))
    n = 0
    for f in fs.values():
        if not any(x['k'] == 'switch' or x['k'] == 'if' for x in walk(f.body)) or f.n in pool or not any(calls_in(f.body, m) for m in pool):
            continue

        def sel(ev, st):
            return ('sel', ev.name) if ev.kind == 'call' and ev.name in pool else None

        def br(t, truth, st):
            t = canon(t)
            if t[0] == 'B' and t[1] == '==':
                for x in (t[2], t[3]):
                    if x is not None and x[0] == 'E' and 'sortingMode' in x[1]:
                        return ('mode', x[1].split('::')[-1]) if truth else None
                if 'm_iteration' in str(t) and 'm_offset' in str(t):
                    return ('first', truth)
            if t[0] == 'C' and t[1] == 'inFirstIteration':
                return ('first', truth)
            return None
        out, thrown, k = paths(prog, q, f, sel, br, None, set(pool) | {'markParents'})
        for tr, ret, st in out:
            m = [x[1] for x in tr if x[0] == 'mode']
            sl = [x[1] for x in tr if x[0] == 'sel']
            first = [x[1] for x in tr if x[0] == 'first']
            if len(m) != 1:
                continue
            n += 1
            where = '%s::%s/%s' % (short(q), f.n, m[0])
            rep.ob(where, len(sl) == 1, f.loc, 'selects', 'the parents are not selected exactly once in this mode')
            if len(sl) != 1:
                continue
            par, comma = pool[sl[0]]
            rep.ob(where + '/criterion', par == ('PARETO' in m[0]), f.loc, 'mode', 'the wrong kind of selection is used in this mode')
            if 'COMMA' in m[0]:
                rep.ob(where + '/pool', comma if first and not first[-1] else not comma if first else False, f.loc, 'mode', 'parents take part in the selection although they should not, or take no part in the first iteration')
            elif 'PLUS' in m[0]:
                rep.ob(where + '/pool', not comma, f.loc, 'mode', 'the former parents do not take part in the selection')
    return n


def only_children(f):
    """the former parents are taken off the front before the individuals are compared"""
    for x in walk(f.body):
        if x['k'] in ('for', 'forrange', 'while', 'do'):
            if any(y['k'] == 'call' and nm(y) == 'setIsNotOnParetoFront' for y in walk(x)) and not any(y['k'] == 'call' and nm(y) == 'aDominatesB' for y in walk(x)):
                return True
    return False


# ---------------------------------------------------------------- domination
def domination(prog, rep, q):
    n = 0
    fs = plain(prog, q)
    for f in [f for f in fs if f.n == 'aDominatesB' and len(f.params) == 2]:
        n += 1
        where = '%s::%s' % (short(q), f.n)
        X, Y = ('P', 0, f.params[0]['n']), ('P', 1, f.params[1]['n'])

        def br(t, truth, st):
            t = canon(t)
            return ('br', t, truth) if mentions(t, lambda x: x[0] == 'C' and (x[1].startswith('minOnly') or x[1] in FIT)) else None

        def sel(ev, st):
            return None
        k = LoopRec({q} | set(prog.bases_of(q)), sel, br)
        out, thrown = Interp(prog, k, q).run(f, ((), ()))
        fits = {x for tr in [b for _, _, b in k.loops] + [st.cl[0] for st, _ in out] for r in tr if r[0] == 'br' for x in subterms(r[1]) if x[0] == 'C' and (x[1].startswith('minOnly') or x[1] in FIT)}

        def who(x):
            o = canon(x[3][0]) if x[2] is None and x[3] else canon(x[2])
            i = x[3][1] if x[2] is None and len(x[3]) > 1 else x[3][0] if x[2] is not None and x[3] else None
            return (0 if o == X else 1 if o == Y else None), i
        for x in sorted(fits, key=str):
            w, i = who(x)
            rep.ob(where + '/criteria', i is not None and canon(i)[0] == 'V', f.loc, 'all-criteria', 'the comparison does not use the current criterion of the individual: ' + tshow(x)[:80])
            rep.ob(where + '/direction', x[1].startswith('minOnly'), f.loc, 'direction', 'the fitness is compared without regard to the direction of optimisation')
        if not fits or any(who(x)[0] is None for x in fits):
            continue
        rep.ob(where + '/same-criterion', len({canon(who(x)[1]) for x in fits}) == 1, f.loc, 'same-criterion', 'different criteria of the individuals are compared')

        def consistent(tr, rel):
            for r in tr:
                if r[0] == 'br':
                    v = calc(r[1], lambda t: ((0, 1) if rel == 'better' else (1, 0) if rel == 'worse' else (1, 1))[who(t)[0]] if t in fits else None)
                    if v is not None and bool(v) != r[2]:
                        return False
            return True
        bodies = [[r for r in b] for nd, s, b in k.loops]
        inside = [([r for r in st.cl[0] if r[0] == 'br'], ret) for st, ret in out if st.cl[1]]
        after = [ret for st, ret in out if not st.cl[1]]
        for br_, ret in inside:
            if not br_ or ret is None:
                continue
            v = litbool(canon(ret)) if canon(ret)[0] == 'L' else None
            if v:
                rep.ob(where + '/early', False, f.loc, 'all-criteria', 'domination is claimed before all criteria were compared')
            elif v is False:
                for rel in ('better', 'equal'):
                    rep.ob(where + '/none-worse', not consistent(last_round(br_), rel), f.loc, 'domination', 'an individual is said not to dominate another one although its criterion is %s' % rel)
        for b in bodies:
            if not any(r[0] == 'br' for r in b):
                continue
            sets = [r for r in b if r[0] == 'set' and canon(r[2]) is not None and canon(r[2])[0] == 'L' and canon(r[2])[2] in ('true', 'false')]
            if consistent(b, 'worse') and not consistent(b, 'better'):
                rep.ob(where + '/worse', bool(sets) and all(canon(r[2])[2] != 'true' or 'wors' in vid_name(f, r[1]).lower() for r in sets) or bool(inside) and False, f.loc, 'domination', 'a criterion in which the individual is worse does not prevent domination')
            if consistent(b, 'equal'):
                rep.ob(where + '/equal', not any(r for r in b if r[0] == 'set' and canon(r[2]) is not None and canon(r[2])[0] == 'L' and canon(r[2])[2] == 'true'), f.loc, 'domination', 'an individual is said to be better in a criterion in which both are equal')
        for ret in after:
            c = canon(ret)
            rep.ob(where + '/needs-better', not (c is not None and c[0] == 'L' and litbool(c)) , f.loc, 'domination', 'an individual dominates another one without being better in any criterion')
    # marking
    for f in fs:
        if f.n == 'aDominatesB' or not calls_in(f.body, 'aDominatesB'):
            continue
        where = '%s::%s' % (short(q), f.n)

        def sel(ev, st):
            if ev.kind == 'call' and ev.name in ('setIsNotOnParetoFront', 'resetParetoTag') and ev.base is not None:
                b = canon(ev.base)
                return (ev.name, canon(b[2]) if b[0] == 'C' and b[1] == 'getPersonalityTraits' else b)
            return None

        def br(t, truth, st):
            t = canon(t)
            return ('dom', t[3][0], t[3][1], truth) if t[0] == 'C' and t[1] == 'aDominatesB' and len(t[3]) == 2 else None
        stop = {g.n for g in fs if g is not f and any(x['k'] == 'call' and nm(x) in ('partial_sort', 'swap_ranges') for x in walk(g.body))} | {'aDominatesB'}
        out, thrown, k = paths(prog, q, f, sel, br, None, stop)
        dirs = set()
        bodies = [b for nd, s, b in k.loops if any(r[0] == 'dom' for r in b)]
        for b in bodies:
            for i, r in enumerate(b):
                if r[0] != 'dom':
                    continue
                dirs.add((var(r[1]), var(r[2])))
                seg = []
                for x in b[i + 1:]:
                    if x[0] == 'dom':
                        break
                    seg.append(x)
                off = [x[1] for x in seg if x[0] == 'setIsNotOnParetoFront']
                if r[3]:
                    rep.ob(where + '/dominated', any(var(x) == var(r[2]) for x in off), f.loc, 'dominated-off-front', 'a dominated individual stays on the Pareto front')
                    rep.ob(where + '/dominating', not any(var(x) == var(r[1]) for x in off), f.loc, 'dominated-off-front', 'an individual is taken off the Pareto front because it dominates another one')
                else:
                    rep.ob(where + '/not-dominated', not any(var(x) in (var(r[2]), var(r[1])) for x in off), f.loc, 'dominated-off-front', 'an individual is taken off the Pareto front although it is not dominated')
        if bodies:
            n += 1
            rep.ob(where + '/both-directions', any((b, a) in dirs for a, b in dirs if a != b), f.loc, 'both-directions', 'it is not checked for both individuals of a pair whether they are dominated')
            rep.ob(where + '/initial', calls_in(f.body, 'resetParetoTag') or any(x[0] == 'resetParetoTag' for nd, s, b in k.loops for x in b), f.loc, 'initially-on-front', 'the marks of the previous iteration are not reset')
    return n


def last_round(tr):
    """branches of the last round of a loop: the same condition is decided once per round"""
    r = []
    for x in reversed(tr):
        if any(y[1] == x[1] for y in r):
            break
        r.insert(0, x)
    return r


def var(t):
    t = canon(t)
    return (t[0], t[1]) if t is not None and t[0] == 'V' else ('elem', t[-1]) if t is not None and t[0] == 'elem' else t


# ---------------------------------------------------------------- simulated annealing
def annealing(prog, rep, q, kinds):
    n = 0
    for f in plain(prog, q):
        if f.n == 'saProb' and len(f.params) == 2:
            out, thrown = Interp(prog, Dec(), q).run(f, ())
            for st, r in out:
                ex = [x for x in subterms(canon(r)) if x[0] == 'C' and x[1] in ('exp', 'gexp') and len(x[3]) == 1]
                if len(ex) != 1:
                    continue
                par, ch = ('P', 0, f.params[0]['n']), ('P', 1, f.params[1]['n'])
                v = {rel: calc(ex[0][3][0], lambda t: a if t == par else b if t == ch else 2 if t[0] == 'F' else None) for rel, (a, b) in {'better': (1, 0), 'worse': (0, 1), 'much worse': (0, 5)}.items()}
                if None in v.values():
                    continue
                n += 1
                rep.ob('%s::%s' % (short(q), f.n), v['better'] > 0 > v['worse'] > v['much worse'], f.loc, 'acceptance', 'a better child is not always accepted, or worse children are accepted more easily the worse they are')
        elif calls_in(f.body, 'saProb'):
            def sel(ev, st):
                if ev.kind == 'call' and ev.name == 'saProb' and len(ev.args) == 2:
                    return ('prob', root(ev.args[0]), root(ev.args[1]))
                if ev.kind == 'call' and ev.name in ('load', 'load_') and ev.base is not None and ev.args:
                    return ('put', canon(ev.base), canon(ev.args[0]))
                if ev.kind in ('algo', 'call') and kinds.get(id(ev.node)) == 'fitness':
                    return ('sort', frz([lin(x) for x in [x for x in ev.args if x is None or x[0] != 'lam'][:3]]))
                return None
            k = SelRec({q} | set(prog.bases_of(q)), sel, lambda t, truth, st: ('br', canon(t), truth) if mentions(t, lambda x: x[0] == 'C' and x[1] == 'saProb') else None, None, ('saProb', 'updateTemperature'))
            out, thrown = Interp(prog, k, q).run(f, ((), ()))
            sf = [next((i for i, x in enumerate(st.cl[0]) if x[0] == 'body'), 0) for st, r in out]
            for (st, r), i in zip(out, sf):
                so = [unfrz(x[1]) for x in st.cl[0][:i] if x[0] == 'sort']
                if i:
                    rep.ob('%s::%s/best children' % (short(q), f.n), any(None not in x and x[0] == {'P': 1} and x[-1] == {'N': 1} and covers(x[1], {'P': 2}) for x in so), f.loc, 'best-promoted', 'the children compared with the parents are not the best ones of all children')
            for nd, s, tr in k.loops:
                pr = [x for x in tr if x[0] == 'prob']
                if len(pr) != 1:
                    continue
                n += 1
                where = '%s::%s' % (short(q), f.n)
                a, b = [index(x) for x in pr[0][1:]]
                if a is None or b is None:
                    continue
                rep.ob(where + '/pairing', add(b, a, -1) == {'P': 1}, f.loc, 'pairing', 'a parent is not compared with the corresponding child, or the other way round')
                for x in tr:
                    if x[0] == 'put':
                        rep.ob(where + '/replaced', item(x[1], pr[0][1]) and item(x[2], pr[0][2]), f.loc, 'parent-replaced', 'something else than the parent is replaced by the accepted child')
                # accepted iff the probability is at least one or exceeds the challenge
                def dec(pv, cv):
                    for x in tr:
                        if x[0] == 'br':
                            v = calc(x[1], lambda t: pv if t[0] == 'C' and t[1] == 'saProb' else cv if t[0] in ('C', 'V') else None)
                            if v is not None and bool(v) != x[2]:
                                return False
                    return True
                put = any(x[0] == 'put' for x in tr)
                for pv, cv, acc in ((2, Fraction(1, 2), True), (Fraction(3, 4), Fraction(1, 2), True), (Fraction(1, 4), Fraction(1, 2), False)):
                    if dec(pv, cv):
                        rep.ob(where + '/%s' % ('accepted' if acc else 'refused'), put == acc, f.loc, 'acceptance', 'a child with probability %s is %s when the challenge is %s' % (pv, 'accepted' if put else 'refused', cv))
    return n


def item(x, y):
    """the same individual"""
    a, b = index(x), index(y)
    return x == y or a is not None and a == b


def index(t):
    t = canon(t)
    if t is not None and t[0] == 'C' and t[1] in ('at', 'operator[]', '[]') and len(t[3]) == 1:
        return lin(t[3][0])
    if t is not None and t[0] == 'X':
        return lin(t[2])
    return lin(t) if t is not None and t[0] == 'B' else None


# ---------------------------------------------------------------- priority queue
def queue(prog, rep, q, kinds):
    hier = {q} | set(prog.bases_of(q))
    fs = plain(prog, q)
    data = [x['n'] for x in prog.classes[q].fields if any(c in (x.get('t') or '') for c in ('deque', 'vector', 'list'))]
    if len(data) != 1:
        return 0
    D = ('F', THIS, data[0])
    n = 0
    for f in [f for f in fs if f.n == 'add']:
        where = '%s::add(%d)' % (short(q), len(f.params))

        def sel(ev, st):
            b = canon(ev.base) if ev.base is not None else None
            if ev.kind == 'call' and b == D and ev.name in ('push_back', 'push_front', 'emplace_back', 'insert', 'resize', 'clear', 'erase', 'pop_back', 'pop_front'):
                return (ev.name, tuple(canon(a) for a in ev.args))
            if ev.kind == 'algo' and ev.name in ('sort', 'stable_sort', 'partial_sort'):
                return ('sort', kinds.get(id(ev.node), 'any'))
            if ev.kind == 'call' and ev.name == 'unique':
                return ('unique',)
            return None

        def br(t, truth, st):
            t = canon(t)
            s = str(t)
            if 'isBetter' in s or data[0] in s and 'size' in s or 'maxSize' in s:
                return ('br', t, truth)
            return None
        k = SelRec(hier, sel, br, None, ('isBetter', 'evaluation', 'id'))
        out, thrown = Interp(prog, k, q).run(f, ((), ()))
        segs = [tr for nd, s, tr in k.loops] + [st.cl[0] for st, r in out if not any(x[0] == 'body' for x in st.cl[0])]
        looped = bool(k.loops)
        for tr in segs:
            if not any(x[0] == 'br' for x in tr) or looped and any(x[0] == 'sort' for x in tr):
                continue
            if not looped:
                tr = tr[:next((i for i, x in enumerate(tr) if x[0] in ('sort', 'unique')), len(tr))]
            put = any(x[0] in ('push_back', 'push_front', 'emplace_back', 'insert') for x in tr)
            n += 1
            bet = [x for x in tr if x[0] == 'br' and any(y[0] == 'C' and y[1] == 'isBetter' for y in subterms(x[1]))]
            for x in bet:
                c = next(y for y in subterms(x[1]) if y[0] == 'C' and y[1] == 'isBetter')
                a, b = c[3][0], c[3][1]
                ok = a is not None and (a[0] == 'C' and a[1] == 'evaluation' or a[0] in ('P', 'elem', 'V')) and not old(a, D) and (old(b, D) and not mentions(b, lambda x: x[0] == 'C' and x[1] in ('front', 'begin', 'cbegin', 'best')) or worst(b) and b[1] == 'getWorstCase' or b[0] in ('V', 'F'))
                rep.ob(where + '/compared', ok, f.loc, 'compared-with-worst', 'a new item is not compared with the worst item of the queue')
            if put:
                continue
            # dropped: only because the queue is full and the item is no better than its worst
            full = {('unlimited', False), ('full', True)} <= {lim(x, D) for x in tr if x[0] == 'br'}
            rep.ob(where + '/dropped', full and any(not x[2] for x in bet), f.loc, 'only-worse-dropped', 'an item is dropped although the queue is unlimited or not full, or although the item is better than the worst one in it')
        for st, r in out:
            tr = [x for x in st.cl[0] if x[0] in ('sort', 'resize', 'unique', 'push_back', 'emplace_back', 'push_front', 'pop_back')]
            cut = [i for i, x in enumerate(tr) if x[0] in ('resize', 'pop_back')]
            so = [i for i, x in enumerate(tr) if x[0] == 'sort']
            if not so:
                continue
            rep.ob(where + '/sorted', tr[so[-1]][1] in ('fitness', 'any') and not any(x[0] in ('push_back', 'emplace_back', 'push_front') for x in tr[so[-1]:]), f.loc, 'sorted-by-evaluation', 'the queue is not sorted by the evaluation of its items in the end')
            for i in cut:
                before = [j for j in so if j < i]
                rep.ob(where + '/trimmed', bool(before) and tr[before[-1]][1] in ('fitness', 'any'), f.loc, 'worst-trimmed', 'surplus items are removed before the queue was sorted by their evaluation')
                if tr[i][0] == 'resize':
                    a = tr[i][1]
                    rep.ob(where + '/size', len(a) >= 1 and a[0] is not None and 'maxSize' in str(a[0]) and a[0][0] != 'B', f.loc, 'trimmed-to-size', 'the queue is not trimmed to its maximum size')
    for f in fs:
        if f.n in ('best', 'worst', 'pop') and not f.params:
            out, thrown, k = paths(prog, q, f, lambda ev, st: (ev.name,) if ev.kind == 'call' and ev.base is not None and canon(ev.base) == D and ev.name in ('pop_front', 'pop_back') else None)
            for tr, r, st in out:
                r = canon(r)
                end = 'back' if f.n == 'worst' else 'front'
                if r is None:
                    continue
                ends = {x[1] for x in subterms(r) if x[0] == 'C' and x[1] in ('front', 'back', 'begin', 'rbegin', 'cbegin')}
                if ends:
                    n += 1
                    rep.ob('%s::%s' % (short(q), f.n), ends <= ({end} | ({'begin', 'cbegin'} if end == 'front' else {'rbegin'})), f.loc, 'queue-ends', 'the %s item is taken from the wrong end of the queue' % ('worst' if f.n == 'worst' else 'best'))
                if f.n == 'pop' and tr:
                    rep.ob('%s::%s/removed' % (short(q), f.n), tr == (('pop_front',),), f.loc, 'queue-ends', 'another item than the best one is removed from the queue')
    return n


def old(t, D):
    """t is about an item that is in the queue"""
    return t is not None and mentions(t, lambda x: x == D)


def lim(x, D):
    """meaning of a condition on the size of the queue"""
    t, truth = x[1], x[2]
    if 'isBetter' in str(t):
        return None
    size = lambda y: y is not None and y[0] == 'C' and y[1] == 'size' and y[2] == D
    mx = lambda y: y is not None and y[0] in ('F', 'C') and 'axSize' in str(y) and not size(y)
    if t[0] == 'B' and t[1] == '==' and any(mx(y) for y in t[2:4]) and any(y is not None and y[0] == 'L' for y in t[2:4]):
        return ('unlimited', truth)
    if mx(t):
        return ('unlimited', not truth)
    if t[0] == 'B' and t[1] == '<' and size(t[2]) and mx(t[3]):
        return ('full', not truth)
    if t[0] == 'B' and t[1] == '<' and mx(t[2]) and size(t[3]):
        return ('full', None)
    if t[0] == 'B' and t[1] == '<' and t[2] is not None and t[2][0] == 'L' and mx(t[3]):
        return ('unlimited', not truth)
    return None


def run(prog, rep):
    enums = enum_leaf(prog)
    n = 0
    per = {}
    kinds = {}
    for f, call, l, algo in comparators(prog):
        r = comparator(prog, rep, f, l, algo, enums)
        n += r is not None
        if r is None:
            rep.stat('comparators_not_decided')
        per.setdefault(f, []).append((algo, r))
        kinds[id(call)] = 'other' if r is None else 'fitness' if any(names_in(s) & set(FIT) for s in r[0]) else 'front' if any(x in m.lower() for s in r[0] for m in names_in(s) for x in FRONT) else 'other'
    for f, cs in per.items():
        last = None
        for algo, r in cs:
            if algo == 'unique' and r is not None and last is not None:
                rep.ob('%s::%s/duplicates by %s' % (short(f.cls or ''), f.n, ','.join(sorted({x for s in r[0] for x in names_in(s)}))), set(last[0]) == set(r[0]), f.loc, 'duplicates-adjacent',
                       'duplicates are looked for by another key than the one the items are sorted by')
            if algo in ('sort', 'stable_sort'):
                last = r
    rep.floor('comparison functions of sorting algorithms', n, 6)
    rep.floor('functions defining what is better', kernels(prog, rep, enums), 4)
    base = [q for q in prog.classes if short(q) == OA]
    if len(base) != 1:
        raise AnalysisBroken('base class of the optimization algorithms not found')
    oas = base + sorted(prog.derived_of(base[0]))
    rep.floor('comparisons with the best known solution', replacements(prog, rep, oas), 3)
    ns = nd = 0
    for q in oas:
        fs = plain(prog, q)
        for f in selectors(prog, q, kinds):
            ns += selection(prog, rep, q, f, kinds)
        ns += modes(prog, rep, q, kinds)
        nd += domination(prog, rep, q)
        nd += annealing(prog, rep, q, kinds)
    for q in prog.classes:
        if short(q) == 'GFixedSizePriorityQueueT':
            rep.floor('paths of the priority queue', queue(prog, rep, q, kinds), 2)
    rep.floor('paths of selection functions', ns, 4)
    rep.floor('domination and acceptance rules', nd, 2)


register('C20', run, 'all',
         rule='comparator-order, better-first, replace-iff-better, selection-range, domination, acceptance, queue-trim',
         explanation='Decision tables of all comparators and comparison kernels (strict weak order, better first for minimisation and maximisation, flags and ids ordered consistently with the duplicate removal), best-known solutions are replaced exactly when the candidate is better, selection moves exactly the best children into the parent section, Pareto domination uses every criterion, and the priority queue keeps the best items.',
         assumptions=['fitness values are ordered (no NaN)'])
