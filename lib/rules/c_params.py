"""C18: counting, reading, bounding and assigning parameters agree on one layout."""
import re
from facts import walk, AnalysisBroken
from flow import *
from rules.registry import register
from rules.matrix import short
from rules.c_workers import plain
from rules.c_broker import key
from rules.loops import LoopRec, elem_of, one_up

TOK = re.compile(r'float|double|int32|boolean|bool', re.I)
TYPES = {'float': 'float', 'double': 'double', 'int32': 'std::int32_t', 'bool': 'bool', 'boolean': 'bool'}
MATCH = 'modifiableAmMatchOrHandover'


def tok(name):
    m = TOK.findall(name)
    return TYPES[m[0].lower()] if len(m) == 1 else None


def residual(name):
    return TOK.sub('', name).lower()


def cst_t(t):
    t = re.sub(r'\bconst\b|&|\s', '', t or '')
    return {'int': 'std::int32_t', 'int32_t': 'std::int32_t'}.get(t, t)


class PRec(LoopRec):
    def __init__(self, hier, select, branches=None, virt=False, no_enter=()):
        super().__init__(hier, select, branches, None, no_enter)
        self.virt = virt

    def relevant(self, f):
        return f.cls in self.hier and f.n not in self.no_enter

    def resolve(self, it, ev):
        if ev.name in self.no_enter:
            return False
        if not self.virt:
            t = it.target(ev.node, ev.name, ev.q, ev.base, ev.args, ev.extra)
            if t is not None and t is not False and (t.d.get('virt') or ev.name == 'isLeaf'):
                return False
        return None


def trace(prog, q, f, sel, branches=None, virt=False, no_enter=()):
    k = PRec({q} | set(prog.bases_of(q)), sel, branches, virt, no_enter)
    out, thrown = Interp(prog, k, q).run(f, ((), ()))
    return [(st.cl[0], r, st, bool(st.cl[1])) for st, r in out], thrown, k


def pterm(f, i):
    return ('P', i, f.params[i]['n'])


def am_of(f):
    r = [i for i, p in enumerate(f.params) if cst_t(p['t']).endswith('activityMode')]
    return r[0] if len(r) == 1 else None


def run(prog, rep):
    bases = [q for q in prog.classes if short(q) == 'GParameterBase']
    sets = [q for q in prog.classes if short(q) == 'GParameterSet']
    if len(bases) != 1 or len(sets) != 1:
        raise AnalysisBroken('parameter base or parameter set class not found')
    base, pset = bases[0], sets[0]
    fam = wrappers(prog, rep, base)
    rep.floor('typed parameter operations', len(fam), 20)
    filters(prog, rep, base)
    containers = [q for q in prog.derived_of(base) if any(f.n in fam and any(walks_children(prog, f)) for f in plain(prog, q))] if False else []
    subs = [q for q in prog.derived_of(base)]
    vnames = {}
    for (wn, sig, T), v in fam.items():
        vnames.setdefault((v[0], v[1]), (wn, sig, T))
    own = {q: [f for f in plain(prog, q) if (f.n, vsig(f)) in vnames] for q in subs}
    for f in plain(prog, base):
        if (f.n, vsig(f)) in vnames and refuses(prog, base, f) and not any(g.n == f.n and vsig(g) == vsig(f) for q in subs for g in own[q]):
            del vnames[(f.n, vsig(f))]          # not defined for this type: always an error
    ncont = nleaf = 0
    for q in subs:
        if not own[q]:
            continue
        if leafness(prog, q) is False:
            ncont += 1
            collection(prog, rep, q, own[q], vnames)
        else:
            nleaf += 1
            leaf(prog, rep, q, own[q], vnames)
    rep.floor('collections of parameter objects', ncont, 1)
    rep.floor('classes holding parameter values', nleaf, 6)
    whole(prog, rep, pset, fam)
    rep.stat('operations', len(fam))
    rep.stat('value classes', nleaf)


def refuses(prog, q, f):
    out, thr, k = trace(prog, q, f, lambda ev, st: None)
    return not out and bool(thr)


def vsig(f):
    """shape of the parameter list: number of parameters and kind of the first"""
    k = ''
    if f.params:
        t = f.params[0]['t']
        k = 'map' if 'map<' in t else ('vec' if 'vector<' in t else '')
    return (len(f.params), k)


def leafness(prog, q):
    for c in [q] + list(prog.bases_of(q)):
        for f in plain(prog, c):
            if f.n == 'isLeaf' and f.body:
                out, thr, k = trace(prog, q, f, lambda ev, st: None)
                vals = {litbool(r) for tr, r, st, o in out}
                if len(vals) == 1:
                    return vals.pop()
                return None
    return None


# ---- the typed front ends of the base class

def wrappers(prog, rep, base):
    fs = plain(prog, base)
    pats = {f.n for f in fs if f.d.get('mode') == 'pattern'}
    fam = {}
    for f in fs:
        if f.d.get('mode') == 'pattern' or f.n not in pats or not f.d.get('fta'):
            continue
        T = f.d['fta'][0]
        ai = am_of(f)
        if ai is None:
            continue
        virt = {g.n for c in [base] for g in plain(prog, c) if g.d.get('virt')}

        def sel(ev, st):
            if ev.kind == 'call' and key(ev.base) == THIS and ev.name in virt and tok(ev.name) and ev.name not in ('isLeaf',):
                return ('call', ev.name, tuple(key(a) for a in ev.args), ('C', ev.name, ev.base, ev.args))

        def br(t, truth, st):
            if t is not None and t[0] == 'C' and t[1] == MATCH and key(t[2]) == THIS and len(t[3]) == 1 and key(t[3][0]) == pterm(f, ai):
                return ('match', truth)
        out, thr, k = trace(prog, base, f, sel, br, no_enter=(MATCH,))
        called = {r[1] for tr, _, _, _ in out for r in tr if r[0] == 'call'}
        if not called:
            continue            # not offered for this type: always fails
        what = '%s<%s>%s' % (f.n, T, '' if vsig(f)[1] != 'map' else '(map)')
        k0 = '%s/%s' % (short(base), what + '/%d' % len(f.params))
        ps = tuple(pterm(f, i) for i in range(len(f.params)))
        ok1 = len(called) == 1 and cst_t(TYPES.get('x', T)) == cst_t(tok(next(iter(called))) or '')
        rep.ob(k0 + '/type', ok1, f.loc, 'the operation of a type is served by the implementation for this type', '%s reaches %s' % (what, ', '.join(sorted(called))))
        ok2, msg = True, ''
        for tr, r, st, o in out:
            cs = [x for x in tr if x[0] == 'call']
            ms = {x[1] for x in tr if x[0] == 'match'}
            if len(ms) != 1:
                ok2, msg = False, 'the activity mode does not decide whether parameters take part'
            elif True in ms and (len(cs) != 1 or cs[0][2] != ps):
                ok2, msg = False, 'matching parameters are not handed exactly the arguments of the caller, exactly once'
            elif False in ms and cs:
                ok2, msg = False, 'parameters excluded by the activity mode take part'
            elif r is not None and True in ms and not (key(r) is not None and key(r)[:2] == ('C', cs[0][1])):
                ok2, msg = False, 'the result of the implementation is not returned'
            elif r is not None and False in ms and not (r[0] == 'L' and r[2] == '0'):
                ok2, msg = False, 'excluded parameters are counted'
        rep.ob(k0 + '/filter', ok2, f.loc, 'an operation covers a parameter exactly when the activity mode selects it', '%s: %s' % (what, msg))
        impl = [g for g in plain(prog, base) if g.n in called and len(g.params) == len(f.params)]
        if len(called) == 1:
            g0 = [g for g in impl if vsig(g) == vsig(f)] or impl
            fam[(f.n, vsig(f), T)] = (next(iter(called)), vsig(g0[0]) if g0 else vsig(f), f)
    # one residual name per operation
    byop = {}
    for (wn, sig, T), v in fam.items():
        byop.setdefault((wn, sig), {}).setdefault(residual(v[0]), []).append(T)
    res = {}
    for (wn, sig), d in byop.items():
        f = next(v[2] for kk, v in fam.items() if kk[:2] == (wn, sig))
        rep.ob('%s/%s/%d%s/operation' % (short(base), wn, sig[0], sig[1]), len(d) == 1, f.loc, 'an operation reaches the same implementation for all types', '%s reaches different operations: %s' % (wn, ', '.join(sorted(d))))
        for r in d:
            res.setdefault((r, sig), set()).add(wn)
    for (r, sig), ws in res.items():
        if len(ws) > 1:
            f = next(v[2] for kk, v in fam.items() if kk[0] in ws)
            rep.ob('%s/%s/distinct' % (short(base), r), False, f.loc, 'different operations have different implementations', '%s share one implementation' % ', '.join(sorted(ws)))
    return fam


def filters(prog, rep, base):
    fs = {f.n: f for f in plain(prog, base)}
    f = fs.get(MATCH)
    if f is None or 'amMatch' not in fs:
        raise AnalysisBroken('activity mode filter not found')
    rows(prog, rep, base, f, ('isLeaf', 'amMatch'), lambda leaf, am: (not leaf) or am, 'objects that hold values take part when they match, containers always hand over to their content')
    f = fs['amMatch']
    am = pterm(f, 0)
    enum = [q for q in prog.enums if q.endswith('::activityMode')]
    if len(enum) != 1:
        raise AnalysisBroken('activity modes not found')
    want = {'ACTIVEONLY': lambda a: a, 'INACTIVEONLY': lambda a: not a, 'ALLPARAMETERS': lambda a: True}
    seen = {}
    out, thr, k = trace(prog, base, f, lambda ev, st: None, no_enter=('adaptionsActive', 'adaptionsInactive'))
    ok, msg = True, ''
    for tr, r, st, o in out:
        mode = None
        for t, v in st.facts.items():
            if v is True and t[0] == 'B' and t[1] == '==' and am in (key(t[2]), key(t[3])):
                e = t[3] if key(t[2]) == am else t[2]
                if e is not None and e[0] == 'E':
                    mode = e[1].split('::')[-1]
        for a in (True, False):
            if not consistent(st, {'adaptionsActive': a, 'adaptionsInactive': not a}):
                continue
            val = value(r, st, {'adaptionsActive': a, 'adaptionsInactive': not a})
            if mode in want:
                seen.setdefault((mode, a), set()).add(val)
                if val is not want[mode](a):
                    ok, msg = False, 'mode %s selects %s parameters: %s' % (mode, 'active' if a else 'inactive', val)
            elif mode is None and r is not None:
                ok, msg = False, 'the selection does not depend on the mode'
    for m in want:
        for a in (True, False):
            if (m, a) not in seen:
                ok, msg = False, msg or 'mode %s is not handled' % m
    rep.ob('%s/amMatch/modes' % short(base), ok, f.loc, 'active parameters are selected by ACTIVEONLY, inactive ones by INACTIVEONLY, all by ALLPARAMETERS', msg)
    if 'adaptionsInactive' in fs:
        rows(prog, rep, base, fs['adaptionsInactive'], ('adaptionsActive',), lambda a: not a, 'a parameter is inactive exactly when it is not active', fields=True)


def consistent(st, atoms):
    for t, v in st.facts.items():
        if t[0] == 'C' and t[1] in atoms and isinstance(v, bool) and v is not atoms[t[1]]:
            return False
    return True


def value(t, st, atoms):
    """truth value of a term for given values of the predicates in it"""
    if t is None:
        return None
    b = litbool(t)
    if b is not None:
        return b
    if t[0] == 'C' and t[1] in atoms:
        return atoms[t[1]]
    if t[0] == 'U' and t[1] in ('!', 'not'):
        v = value(t[2], st, atoms)
        return None if v is None else (not v)
    if t[0] == 'B' and t[1] in ('&&', '||', '==', '!='):
        a, b = value(t[2], st, atoms), value(t[3], st, atoms)
        if t[1] == '&&':
            return False if (a is False or b is False) else (True if a and b else None)
        if t[1] == '||':
            return True if (a is True or b is True) else (False if (a is False and b is False) else None)
        if a is None or b is None:
            return None
        return (a == b) if t[1] == '==' else (a != b)
    if t[0] == 'cond' or t[0] == '?':
        return None
    return None


def rows(prog, rep, q, f, names, want, rule, fields=False):
    import itertools
    out, thr, k = trace(prog, q, f, lambda ev, st: None, no_enter=names)
    ok, msg = bool(out), 'never returns'
    flds = {'adaptionsActive': 'm_adaptionsActive'} if fields else {}
    for vals in itertools.product((True, False), repeat=len(names)):
        atoms = dict(zip(names, vals))
        got = set()
        for tr, r, st, o in out:
            if not consistent(st, atoms):
                continue
            got.add(value(subst_field(r, flds), st, atoms))
        if got != {want(*vals)}:
            ok, msg = False, '%s gives %s for %s' % (f.n, sorted(map(str, got)), ', '.join('%s=%s' % x for x in atoms.items()))
    rep.ob('%s/%s/truth' % (short(q), f.n), ok, f.loc, rule, msg)


def subst_field(t, flds):
    if not flds or t is None or not isinstance(t, tuple):
        return t
    if t[0] == 'F' and t[1] == THIS:
        for n, fl in flds.items():
            if t[2].lower().replace('m_', '').strip('_') == n.lower():
                return ('C', n, THIS, ())
    return tuple(subst_field(x, flds) if isinstance(x, tuple) else x for x in t)


# ---- containers hand every operation to each of their elements

def fwd_select(prog, f, names):
    def sel(ev, st):
        if ev.kind == 'call' and ev.base is not None and ev.name in names:
            ta = (ev.extra or {}).get('ta') or ev.node.get('ta') or ()
            return ('fwd', ev.name, ev.base, tuple(key(a) for a in ev.args), tuple(cst_t(x) for x in ta), ('C', ev.name, ev.base, ev.args))
        if ev.kind == 'call' and ev.name == 'clear' and key(ev.base) is not None and key(ev.base)[0] == 'P':
            return ('clear', key(ev.base))
    return sel


def distribute(prog, rep, q, f, wn, T, k0, what, extra=None, clear=False):
    """f calls element->wn<T>(own parameters) exactly once for every element it contains"""
    out, thr, k = trace(prog, q, f, fwd_select(prog, f, {wn, f.n}), no_enter=(wn, f.n))
    own_cont = {THIS} | {('F', THIS, x['n']) for c in [q] + list(prog.bases_of(q)) if c in prog.classes for x in prog.classes[c].fields}
    ok, msg = bool(out), 'never completes'
    amt = am_of(f)
    pair = None
    for i, p in enumerate(f.params):
        if 'shared_ptr<' in p['t']:
            pair = i
    bad = None
    for tr, r, st, o in out:
        if o:
            bad = 'the traversal may end before all elements were visited'
        top = [x for x in tr if x[0] not in ('set',)]
        if any(x[0] == 'fwd' for x in top):
            bad = 'elements are addressed outside of the traversal'
        if not any(x[0] in ('body', 'left') for x in top):
            bad = 'the elements are not visited'
        if clear:
            outs = [pterm(f, i) for i, p in enumerate(f.params) if '&' in p['t'] and not p['t'].startswith('const') and ('vector<' in p['t'])]
            first = next((i for i, x in enumerate(top) if x[0] in ('body', 'left')), len(top))
            for w in outs:
                if ('clear', w) not in top[:first]:
                    bad = 'earlier content of the output %s is kept' % w[2]
    nodes = {id(n): n for n, s, b in k.loops}
    used = 0
    seen_loops = set()
    for i, n in nodes.items():
        bodies = [b for nn, s, b in k.loops if nn is n]
        if not any(x[0] == 'fwd' for b in bodies for x in b):
            continue
        used += 1
        cov = k.coverage(n)
        if cov is None or cov[0] not in own_cont:
            bad = bad or 'not every element of the object is visited exactly once'
            continue
        for b in bodies:
            fw = [x for x in b if x[0] == 'fwd']
            if len(fw) != 1:
                bad = bad or 'an element is addressed %d times' % len(fw)
                continue
            x = fw[0]
            if x[1] != wn or not elem_of(x[2], cov[0], cov[1]):
                bad = bad or 'something else than %s of the element is called' % wn
            if x[4] and x[4] != (cst_t(T),):
                bad = bad or 'the operation of type %s is called' % ', '.join(x[4])
            want = [pterm(f, j) for j in range(len(f.params))]
            if extra is not None and pair is None:
                want = extra(x[3], want)
            if pair is not None:
                a = x[3][0] if x[3] else None
                if not partner(prog, k, n, b, a, cov, pterm(f, pair)):
                    bad = bad or 'the elements of the other object are not taken one by one in the same order'
                if list(x[3][1:]) != [w for j, w in enumerate(want) if j != pair]:
                    bad = bad or 'the arguments of the caller are not passed on'
            elif list(x[3]) != want:
                bad = bad or 'the arguments of the caller are not passed on'
            if r is not None and (f.d.get('ret') or '') != 'void':
                acc = [y for y in b if y[0] == 'set' and y[2] is not None and y[2][0] == 'B' and y[2][1] == '+' and any(key(z) == key(x[5]) for z in y[2][2:])]
                if len(acc) != 1:
                    bad = bad or 'the contribution of an element is not added up'
        seen_loops.add(i)
    if not used:
        bad = bad or 'no element is addressed'
    if used > 1:
        bad = bad or 'elements are addressed in more than one traversal'
    if pair is not None and not bad:
        for i in seen_loops:
            if not sized(k, nodes[i], pterm(f, pair)):
                bad = 'the other object may have fewer elements'
    if (f.d.get('ret') or 'void') != 'void' and not bad:
        for tr, r, st, o in out:
            v = key(r)
            if v is None or v[0] not in ('V', 'L'):
                bad = 'the sum is not returned'
            else:
                s = [x for x in tr if x[0] == 'set' and v[0] == 'V' and x[1] == v[1]]
                if v[0] == 'V' and not (s and s[0][2] is not None and s[0][2][0] == 'L' and s[0][2][2] == '0'):
                    bad = 'the sum does not start from zero'
    rep.ob(k0, bad is None, f.loc, 'an operation on a container reaches each of its elements exactly once, with the same arguments', '%s: %s' % (what, bad))


def partner(prog, k, n, b, a, cov, other):
    """a is the element of the other container in the same position"""
    if a is None:
        return False
    conts = {other}
    if a[0] == 'elem' and len(a) == 3 and a[2] != cov[1]:
        c = key(strip(a[1]))
        vid = a[2]
    elif a[0] == 'V':
        c, vid = None, a[1]
    elif a[0] == 'U' or a[0] == 'D':
        return partner(prog, k, n, b, a[-1], cov, other)
    elif cov[1] is not None and (elem_of(a, other, cov[1]) or any(elem_of(a, ('F', other, x), cov[1]) for x in ('m_data_cnt',))):
        return True
    else:
        return False
    if vid == cov[1]:
        return False
    ini = k.inits.get(id(n), {}).get(vid, set())
    if not ini:
        return False
    for t in ini:
        while t is not None and t[0] == 'K' and len(t[2]) == 1:
            t = key(t[2][0])
        if t is None or t[0] != 'C' or t[1] not in ('begin', 'cbegin'):
            return False
        bt = key(strip(t[2]))
        while bt is not None and bt[0] == 'F':
            bt = key(strip(bt[1]))
        if bt != other:
            return False
    return k.steps(n, vid)


def sized(k, n, other):
    return k.sizes.get(id(n), False)


_iter0 = LoopRec.event


def _event(self, ev, st):
    """notes whether both sizes are known to be equal when a loop is entered"""
    if ev.kind == 'iter':
        eq = False
        for t, v in st.facts.items():
            if v is True and t[0] == 'B' and t[1] == '==':
                a, b = t[2], t[3]
                if a is not None and b is not None and a[0] == 'C' and b[0] == 'C' and a[1] == 'size' and b[1] == 'size' and a[2] != b[2]:
                    eq = True
        if not hasattr(self, 'sizes'):
            self.sizes = {}
        seg = st.cl[1]
        if not (seg and seg[-1][0] == id(ev.node)):
            self.sizes[id(ev.node)] = self.sizes.get(id(ev.node), True) and eq
    return _iter0(self, ev, st)


PRec.event = _event


def collection(prog, rep, q, fs, vnames):
    have = {(f.n, vsig(f)) for f in fs}
    loc = fs[0].loc
    for (v, sig), (wn, wsig, T) in sorted(vnames.items()):
        if (v, sig) not in have:
            rep.ob('%s/%s/offered' % (short(q), v), False, loc, 'a container offers every operation of its elements', '%s of %s does nothing' % (v, short(q)))
    for f in fs:
        wn, wsig, T = vnames[(f.n, vsig(f))]
        distribute(prog, rep, q, f, wn, T, '%s/%s/%d%s/elements' % (short(q), f.n, len(f.params), vsig(f)[1]), '%s::%s' % (short(q), f.n))


def whole(prog, rep, q, fam):
    ops = {}
    for (wn, sig, T) in fam:
        ops.setdefault(wn, set()).add(sig)
    n = 0
    for f in plain(prog, q):
        if f.n not in ops or am_of(f) is None:
            continue
        n += 1
        T = 'par_type'
        tps = [x for x in re.findall(r'\w+', ' '.join(p['t'] for p in f.params))]
        isout = f.n in ('streamline', 'boundaries') or any('&' in p['t'] and not p['t'].startswith('const') and 'vector<' in p['t'] for p in f.params)

        def extra(args, want):
            # position counters and random sources are supplied by the parameter set itself
            w = list(want)
            r = []
            for a in args:
                if w and a == w[0]:
                    r.append(w.pop(0))
                elif a is not None and a[0] in ('V', 'F', 'L'):
                    r.append(a)
                elif a is not None and a[0] == 'elem' and w:
                    r.append(w.pop(0))
                else:
                    r.append(None)
            return [x for x in r if x is not None] + w if None not in r else want + ['?']
        distribute(prog, rep, q, f, f.n, tparam(f), '%s/%s/%d%s/elements' % (short(q), f.n, len(f.params), vsig(f)[1]), '%s::%s' % (short(q), f.n), extra, clear=isout)
        modes(prog, rep, q, f)
        if not isout and any('vector<' in p['t'] and 'map<' not in p['t'] for p in f.params):
            startpos(prog, rep, q, f)
    rep.floor('operations of whole parameter sets', n, 8)


def tparam(f):
    for x in walk(f.body):
        ta = x.get('ta')
        if isinstance(ta, list) and len(ta) == 1 and x.get('k') in ('member',):
            t = ta[0]
            if re.fullmatch(r'\w+', t):
                return t if any(re.search(r'\b%s\b' % re.escape(t), p['t']) for p in f.params) or True else None
    return 'par_type'


def modes(prog, rep, q, f):
    """calls that take an activity mode are given the mode of the caller"""
    ai = am_of(f)

    def sel(ev, st):
        if ev.kind == 'call' and ev.name != 'clear' and ev.base is not None and ev.name in ('countParameters', 'streamline', 'boundaries', f.n):
            return ('call', ev.name, tuple(key(a) for a in ev.args))
    out, thr, k = trace(prog, q, f, sel, no_enter=('countParameters', 'streamline', 'boundaries', f.n))
    recs = {x for tr, r, st, o in out for x in tr if x[0] == 'call'} | {x for n, s, b in k.loops for x in b if x[0] == 'call'} | {x for st, ty, n in thr for x in st.cl[0] if x[0] == 'call'}
    bad = [x for x in recs if pterm(f, ai) not in x[2]]
    rep.ob('%s/%s/%d%s/mode' % (short(q), f.n, len(f.params), vsig(f)[1]), not bad, f.loc, 'the activity mode of the caller applies to everything an operation looks at', '%s asks %s for another activity mode' % (f.n, ', '.join(sorted({x[1] for x in bad}))))


def startpos(prog, rep, q, f):
    def sel(ev, st):
        if ev.kind == 'call' and ev.name == f.n and ev.base is not None:
            return ('fwd', tuple(key(a) for a in ev.args))
    out, thr, k = trace(prog, q, f, sel, no_enter=(f.n,))
    ok = False
    msg = 'no position is handed to the elements'
    for n, s, b in k.loops:
        for x in b:
            if x[0] == 'fwd':
                vs = [a for a in x[1] if a is not None and a[0] in ('V', 'L')]
                if not vs:
                    continue
                ok = True
                if vs[0][0] == 'V':
                    ini = k.inits.get(id(n), {}).get(vs[0][1], set())
                    if not ini or any(t is None or t[0] != 'L' or t[2] != '0' for t in ini):
                        ok, msg = False, 'assignment does not start with the first value'
                    if any(y[0] == 'set' and y[1] == vs[0][1] for y in b):
                        ok, msg = False, 'the position is changed between two elements'
    rep.ob('%s/%s/start' % (short(q), f.n), ok, f.loc, 'values are assigned starting with the first one, without gaps', msg)


# ---- objects holding values

SETTERS = ('setValue', 'setValue_')
KEEP = ('setValue', 'setValue_', 'value', 'transfer', 'getMapItem', 'getParameterName', 'getLowerInitBoundary', 'getUpperInitBoundary', 'getLowerBoundary', 'getUpperBoundary',
        'parameterbase_cast', 'streamline')


def own_value(t, cov):
    """t is (a transformation of) the own value the current step of a loop, or the function, is about"""
    t = key(t)
    if t is None:
        return False
    if t[0] == 'C' and t[1] == 'transfer' and len(t[3]) == 1:
        return own_value(t[3][0], cov)
    if cov is None:
        return (t[0] == 'C' and t[1] == 'value' and not t[3] and key(strip(t[2])) == THIS) or (t[0] == 'F' and t[1] == THIS)
    if t[0] == 'C' and t[1] in ('value', 'at') and len(t[3]) == 1:
        a = key(t[3][0])
        return in_self(key(strip(t[2]))) and a is not None and a[:2] == ('V', cov[1])
    return elem_of(t, cov[0], cov[1])


def in_self(t):
    while t is not None and t[0] in ('F',) and t[1] != THIS:
        t = key(strip(t[1]))
    return t == THIS or (t is not None and t[0] == 'F' and t[1] == THIS)


def leaf_select(f, pids):
    def sel(ev, st):
        if ev.kind == 'call':
            b = key(ev.base) if ev.base is not None else None
            if ev.name in ('push_back', 'emplace_back'):
                return ('push', b, key(ev.args[0]) if ev.args else None)
            if ev.name in SETTERS and in_self(b):
                return ('write', tuple(key(a) for a in ev.args[:-1]), key(ev.args[-1]) if ev.args else None)
            if b is not None and ev.name in ('insert', 'clear', 'resize', 'assign', 'erase'):
                return ('other', ev.name, b)
            if b == THIS and ('treamline' in ev.name) and len(ev.args) >= 1:
                return ('sub', ev.name, key(ev.args[0]))
        if ev.kind == 'assign' and ev.lhs is not None and ev.lhs[0] != 'V':
            l = key(ev.lhs)
            if l is None:
                return None
            if l[0] == 'X' and key(strip(l[1])) is not None and key(strip(l[1]))[0] == 'P':
                return ('store', key(strip(l[1])), key(l[2]), key(ev.rhs))
            if l[0] in ('elem', 'X', 'C') or (l[0] == 'F' and l[1] == THIS):
                rhs = key(ev.rhs)
                if ev.op and ev.op != '=':
                    rhs = ('B', ev.op[:-1], l, rhs)
                return ('write', (l,), rhs)
    return sel


def shape_of(prog, q, f):
    """summaries of all complete paths; every loop is one step per own element or the function is not understood"""
    ids = {}
    out, thr, k = trace(prog, q, f, leaf_select(f, ids), virt=False, no_enter=KEEP)
    return out, thr, k


def steps_of(k, out):
    """[(coverage or None, records)] of the steps of a function, or an error"""
    res = []
    nodes = {}
    for n, s, b in k.loops:
        nodes.setdefault(id(n), (n, []))[1].append(b)
    for i, (n, bodies) in nodes.items():
        rel = [[x for x in b if x[0] not in ('set',)] for b in bodies]
        if not any(rel):
            continue
        cov = k.coverage(n)
        if cov is None or not in_self(cov[0]):
            return None, 'a loop does not visit each own value exactly once'
        if any([x[0] for x in b] != [x[0] for x in rel[0]] for b in rel):
            return None, 'values are treated differently'
        for b in bodies:
            res.append((n, cov, b))
    tops = set()
    for tr, r, st, o in out:
        if o:
            return None, 'a loop over the own values may be left early'
        tops.add(tuple(x if x[0] not in ('body', 'left') else ('loop', x[1]) for x in squeeze(tr)))
    return (res, tops), None


def squeeze(tr):
    r = []
    for x in tr:
        if x[0] in ('body', 'left') and r and r[-1][0] in ('body', 'left') and r[-1][1] == x[1]:
            continue
        r.append(x)
    return r


def leaf(prog, rep, q, fs, vnames):
    byT = {}
    for f in fs:
        byT.setdefault(vnames[(f.n, vsig(f))][2], []).append(f)
    for T, ff in byT.items():
        if not any(residual(f.n).startswith('count') for f in ff):
            continue
        names = {(f.n, vsig(f)) for f in ff}
        missing = sorted(v for (v, sig), (wn, ws, TT) in vnames.items() if TT == T and (v, sig) not in names and not inherited(prog, q, v, sig))
        rep.ob('%s/%s/offered' % (short(q), T), not missing, ff[0].loc, 'objects holding values implement every operation of their type', '%s does not implement %s' % (short(q), ', '.join(missing)))
        count = [f for f in ff if residual(f.n).startswith('count')]
        each = None
        for f in count:
            out, thr, k = trace(prog, q, f, lambda ev, st: None)
            rs = {key(r) for tr, r, st, o in out}
            if rs == {('L', 'int', '1')}:
                each = False
            elif len(rs) == 1 and next(iter(rs)) is not None and next(iter(rs))[:2] == ('C', 'size') and in_self(key(strip(next(iter(rs))[2]))):
                each = True
            rep.ob('%s/%s' % (short(q), f.n), each is not None, f.loc, 'the number of values is one, or the size of the collection', '%s::%s returns neither' % (short(q), f.n))
        if each is None:
            continue
        for f in ff:
            if f in count:
                continue
            k0 = '%s/%s/%d%s' % (short(q), f.n, len(f.params), vsig(f)[1])
            msg = leaf_op(prog, q, f, vnames[(f.n, vsig(f))], each)
            rep.ob(k0, msg is None, f.loc, RULES_LEAF.get(vnames[(f.n, vsig(f))][0], 'an operation covers all own values'), '%s::%s: %s' % (short(q), f.n, msg))


RULES_LEAF = {
    'streamline': 'as many values are read as counted, in order, under the own name',
    'boundaries': 'there is one lower and one upper boundary per value',
    'assignValueVector': 'as many values are consumed as counted, in order',
    'assignValueVectors': 'each value is taken from its position under the own name',
    'multiplyByRandom': 'each own value is multiplied exactly once',
    'multiplyBy': 'each own value is multiplied exactly once',
    'fixedValueInit': 'each own value is set',
    'add': 'each own value is added its counterpart',
    'subtract': 'each own value is subtracted its counterpart',
}


def inherited(prog, q, v, sig):
    for b in prog.bases_of(q):
        for f in plain(prog, b):
            if f.n == v and vsig(f) == sig and short(b) != 'GParameterBase':
                return True
    return False


def idx_of(f, i):
    return f.params[i].get('id')


def leaf_op(prog, q, f, op, each):
    wn = op[0]
    out, thr, k = shape_of(prog, q, f)
    if not out:
        return 'never completes'
    r, err = steps_of(k, out)
    if err:
        return err
    bodies, tops = r
    vecs = [i for i, p in enumerate(f.params) if 'vector<' in p['t']]
    if wn in ('streamline', 'boundaries'):
        if vsig(f)[1] == 'map':
            return map_out(f, bodies, tops, each, k)
        targets = [pterm(f, i) for i in vecs]
        return vec_out(f, bodies, tops, each, targets, wn)
    if wn == 'assignValueVector':
        return vec_in(f, bodies, tops, each, k)
    if wn == 'assignValueVectors':
        return map_in(f, bodies, tops, each, k)
    return arith(prog, q, f, bodies, tops, each, wn, k)


def pushes(recs, target):
    return [x for x in recs if x[0] == 'push' and x[1] == target]


def vec_out(f, bodies, tops, each, targets, wn):
    for ti, t in enumerate(targets):
        for top in tops:
            rel = [x for x in top if x[0] in ('push', 'loop', 'other') and (x[0] != 'loop' or any(id(n) == x[1] and pushes(b, t) for n, c, b in bodies)) and (x[0] == 'loop' or x[1] == t or (x[0] == 'other' and x[2] == t))]
            if any(x[0] == 'other' for x in rel):
                return 'values of other objects may be lost'
            if each and not (len(rel) == 1 and rel[0][0] == 'loop'):
                return 'not exactly one entry is appended per value'
            if not each and not (len(rel) == 1 and rel[0][0] == 'push'):
                return 'not exactly one entry is appended'
            if not each:
                m = entry(rel[0][2], None, wn, ti)
                if m:
                    return m
        if each:
            for n, cov, b in bodies:
                ps = pushes(b, t)
                if not any(pushes(b, tt) for tt in targets):
                    continue
                if len(ps) != 1:
                    return 'not exactly one entry is appended per value'
                m = entry(ps[0][2], cov, wn, ti)
                if m:
                    return m
    return None


def entry(t, cov, wn, ti):
    if wn == 'streamline':
        return None if own_value(t, cov) else 'something else than the own value is appended'
    t = key(t)
    if t is not None and t[0] == 'L' and t[1] == 'bool':
        return None if t[2] == ('false', 'true')[ti] else 'lower and upper boundary are exchanged'
    nm = ''
    if t is not None and t[0] == 'C':
        nm = t[1]
    elif t is not None and t[0] == 'F':
        nm = t[2]
    if ('ower', 'pper')[ti] in nm and ('pper', 'ower')[ti] not in nm:
        return None
    return 'the %s boundary is not what is appended' % ('lower', 'upper')[ti]


def map_out(f, bodies, tops, each, k):
    p0 = pterm(f, 0)
    for top in tops:
        st = [x for x in top if x[0] == 'store']
        if len(st) != 1 or st[0][1] != p0:
            return 'not exactly one entry is made'
        x = st[0]
        if not own_name(x[2]):
            return 'the entry is not made under the own name'
        src = x[3]
        if src is not None and src[0] == 'init' or (src is not None and src[0] == 'K'):
            continue
        sub = [y for y in top if y[0] == 'sub' and y[2] == src]
        ps = [y for y in top if y[0] == 'push' and y[1] == src]
        lp = [y for y in top if y[0] == 'loop' and any(id(n) == y[1] and pushes(b, src) for n, c, b in bodies)]
        if len(sub) + len(ps) + len(lp) != 1:
            return 'not exactly the own values are entered'
        if ps and (each or entry(ps[0][2], None, 'streamline', 0)):
            return 'not exactly the own values are entered'
        if lp:
            if not each:
                return 'not exactly the own value is entered'
            for n, cov, b in bodies:
                pp = pushes(b, src)
                if len(pp) != 1 or entry(pp[0][2], cov, 'streamline', 0):
                    return 'not exactly the own values are entered'
        order = [y for y in top if y in sub + ps + lp or y[0] == 'store']
        if order[-1][0] != 'store':
            return 'values are added to a copy'
    return None


def own_name(t):
    t = key(t)
    return t is not None and ((t[0] == 'C' and t[1] == 'getParameterName' and key(strip(t[2])) == THIS) or (t[0] == 'F' and t[1] == THIS and 'ame' in t[2]))


def writes(recs):
    return [x for x in recs if x[0] == 'write']


def target_ok(x, cov):
    """the write goes to the value the step is about"""
    if cov is None:
        return not x[1] or (len(x[1]) == 1 and x[1][0] is not None and x[1][0][0] == 'F' and x[1][0][1] == THIS)
    if len(x[1]) != 1 or x[1][0] is None:
        return False
    a = x[1][0]
    return (a[0] == 'V' and a[1] == cov[1]) or elem_of(a, cov[0], cov[1]) or own_value(a, cov)


def vec_in(f, bodies, tops, each, k):
    p0, pid = pterm(f, 0), idx_of(f, 1)
    p1 = pterm(f, 1)

    def step(recs, cov, n):
        ws = writes(recs)
        if len(ws) != 1 or not target_ok(ws[0], cov):
            return 'not exactly one value is assigned per own value'
        inc = [x for x in recs if x[0] == 'set' and x[1] in (pid, p1)]
        if len(inc) != 1 or not (inc[0][2] is not None and inc[0][2][0] == 'B' and inc[0][2][1] == '+' and any(key(y) == ('L', 'int', '1') for y in inc[0][2][2:])):
            return 'the position does not advance by one per value'
        v = ws[0][2]
        src = [y for y in subterms(v) if (y[0] == 'X' and key(strip(y[1])) == p0) or (y[0] == 'C' and y[1] == 'at' and y[2] is not None and key(strip(y[2])) == p0)] if v is not None else []
        if len(src) != 1:
            return 'the value is not taken from the vector'
        ix = key(src[0][2]) if src[0][0] == 'X' else key(src[0][3][0])
        old = p1 if cov is None else ('V', pid, '~l%d' % n.get('l', 0))
        if ix != old and ix != p1:
            return 'the value is not taken from the current position'
        return None
    for top in tops:
        lp = [x for x in top if x[0] == 'loop' and any(id(n) == x[1] for n, c, b in bodies)]
        ws = writes(top)
        inc = [x for x in top if x[0] == 'set' and x[1] in (pid, p1)]
        if each:
            if len(lp) != 1 or ws or inc:
                return 'not exactly the own values are assigned'
        else:
            if lp:
                return 'more than one value is consumed'
            m = step([x for x in top], None, None)
            if m:
                return m
    if each:
        for n, cov, b in bodies:
            m = step(b, cov, n)
            if m:
                return m
    return None


def map_in(f, bodies, tops, each, k):
    p0 = pterm(f, 0)

    def source(v):
        r = []
        for y in subterms(v) if v is not None else ():
            if y[0] == 'C' and y[1] in ('at', 'operator[]', '[]') and y[2] is not None and len(y[3]) == 1:
                r.append((key(strip(y[2])), key(y[3][0])))
            elif y[0] == 'X':
                r.append((key(strip(y[1])), key(y[2])))
        r = [x for x in r if x[0] is not None and x[0][0] == 'C' and x[0][1] == 'getMapItem']
        return r

    def check(recs, cov, n):
        ws = writes(recs)
        if len(ws) != 1 or not target_ok(ws[0], cov):
            return 'not exactly one value is assigned per own value'
        s = source(ws[0][2])
        if len(s) != 1:
            return 'the value is not looked up'
        item, ix = s[0]
        if not (len(item[3]) == 2 and key(item[3][0]) == p0 and own_name(item[3][1])):
            return 'the value is not looked up under the own name'
        if cov is None:
            return None if ix == ('L', 'int', '0') else 'the first value is not used'
        if ix is None or ix[0] != 'V':
            return 'the value does not depend on the position'
        if ix[1] == cov[1]:
            return None
        if ix[2] != '~l%d' % n.get('l', 0):
            return 'the values are shifted by one position'
        ini = k.inits.get(id(n), {}).get(ix[1], set())
        if not ini or any(t != ('L', 'int', '0') for t in ini):
            return 'the first value is not used'
        return None if k.steps(n, ix[1]) else 'positions are not taken one by one'
    for top in tops:
        ws = writes(top)
        lp = [x for x in top if x[0] == 'loop' and any(id(n) == x[1] for n, c, b in bodies)]
        if each and (ws or len(lp) != 1):
            return 'not exactly the own values are assigned'
        if not each:
            if lp:
                return 'more than one value is assigned'
            m = check(top, None, None)
            if m:
                return m
    if each:
        for n, cov, b in bodies:
            m = check(b, cov, n)
            if m:
                return m
    return None


def arith(prog, q, f, bodies, tops, each, wn, k):
    op = {'multiplyByRandom': '*', 'multiplyBy': '*', 'fixedValueInit': None, 'add': '+', 'subtract': '-'}.get(wn)

    def inner(t):
        t = key(t)
        while t is not None and ((t[0] == 'C' and t[1] in ('transfer',) and len(t[3]) == 1) or t[0] in ('K', 'cast')):
            t = key(t[3][0]) if t[0] == 'C' else (key(t[2][0]) if t[0] == 'K' and len(t[2]) == 1 else None)
        return t

    def check(recs, cov):
        ws = writes(recs)
        if len(ws) != 1 or not target_ok(ws[0], cov):
            return 'not exactly one value is assigned per own value'
        t = inner(ws[0][2])
        if wn == 'fixedValueInit':
            return None if t == pterm(f, 0) else 'something else than the given value is assigned'
        ms = [y for y in subterms(t) if y[0] == 'B' and y[1] == op] if t is not None else []
        if not ms:
            return 'the operation %s is not applied' % op
        good = False
        for m in ms:
            a, b = inner(m[2]), inner(m[3])
            for x, y, first in ((a, b, True), (b, a, False)):
                if not any(own_value(z, cov) for z in subterms(x) if z is not None and z[0] in ('C', 'F', 'elem', 'X')) and not own_value(x, cov):
                    continue
                if op == '-' and not first:
                    continue
                if wn == 'multiplyByRandom':
                    good = good or (y is not None and any(z[0] in ('C', 'V', 'P') for z in subterms(y)))
                elif wn == 'multiplyBy':
                    good = good or y == pterm(f, 0)
                else:
                    good = good or other_value(y, cov, pterm(f, 0))
        return None if good else 'own value and operand are not combined by %s' % op
    for top in tops:
        ws = writes(top)
        lp = [x for x in top if x[0] == 'loop' and any(id(n) == x[1] for n, c, b in bodies)]
        if each and (ws or len(lp) != 1):
            return 'not exactly the own values are assigned'
        if not each:
            if lp:
                return 'more than one value is assigned'
            m = check(top, None)
            if m:
                return m
    if each:
        for n, cov, b in bodies:
            m = check(b, cov)
            if m:
                return m
            if wn in ('add', 'subtract') and not k.sizes.get(id(n)):
                return 'the other object may hold fewer values'
    return None


def other_value(t, cov, p0):
    t = key(t)
    if t is None:
        return False
    if t[0] == 'C' and t[1] == 'value' and mentions(t[2], lambda y: y == p0):
        if cov is None:
            return not t[3]
        a = key(t[3][0]) if len(t[3]) == 1 else None
        return a is not None and a[:2] == ('V', cov[1])
    if cov is None:
        return t[0] == 'F' and mentions(t[1], lambda y: y == p0)
    if t[0] in ('X', 'C') and mentions(t, lambda y: y == p0):
        return mentions(t, lambda y: y[0] == 'V' and y[1] == cov[1])
    return False


register('C18', run, 'all',
         'for every parameter type, the typed front ends, the collections, the value classes and the parameter set are interpreted path by path: '
         'who is called with which arguments, which own values a loop visits, how many entries are appended or consumed per value',
         'parameters are counted, read, bounded and assigned in one consistent layout')
