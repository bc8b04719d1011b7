"""C22: a setting which was made is the setting that is in effect; configuration options reach their settings."""
from facts import walk, AnalysisBroken
from flow import *
from rules.registry import register
from rules.matrix import short
from rules.c_workers import plain, nm
from rules.c_ranking import canon
from rules.locks import run_lambda

ONETIME = ('setValue', 'operator=', 'store', 'set')
READS = ('value', 'load', 'reference', 'count', 'string', 'str', 'c_str', 'native', 'get')


def is_setter(n):
    return n.startswith('set') and len(n) > 3 and (n[3].isupper() or n[3] == '_')


def peel(t):
    """the quantity behind conversions and accessors of wrappers"""
    t = canon(t)
    while t is not None:
        if t[0] == 'C' and len(t) > 3 and t[2] is not None and not [a for a in t[3] if a[0:2] != ('L', 'defarg')] and (t[1] in READS or t[1].startswith('operator ')):
            t = canon(t[2])
        elif t[0] == 'C' and t[1] in ('duration_cast', 'move', 'forward', 'lexical_cast') and len(t[3]) == 1:
            t = canon(t[3][0])
        elif t[0] == 'K' and t[2] and all(a[0:2] == ('L', 'defarg') for a in t[2][1:]):
            t = canon(t[2][0])
        else:
            break
    return t


def own(t):
    return t is not None and t[0] == 'F' and t[1] == THIS


def has(t, x):
    return t is not None and mentions(t, lambda y: y == x)


def small(f):
    v = f.d.get('_size')
    if v is None:
        v = f.d['_size'] = sum(1 for x in walk(f.body))
    return v < 600


class SetC(Client):
    """cl = (stores and hand-overs, branches, nested setters)"""
    max_depth = 5
    max_states = 600

    def __init__(self, hier):
        self.hier = hier

    def relevant(self, f):
        return f.body is not None and f.cls in self.hier and small(f)

    def event(self, ev, st):
        stores, br, nest = st.cl
        if ev.kind == 'assign' and ev.lhs is not None:
            l = canon(ev.lhs)
            while l is not None and l[0] in ('X',):
                l = canon(l[1])
            if own(l):
                return [st.w(cl=(stores + (('F', l, canon(ev.rhs)),), br, nest))]
        elif ev.kind == 'call' and ev.args:
            b = peel(ev.base) if ev.base is not None else None
            if own(b) and ev.name in ONETIME:
                return [st.w(cl=(stores + (('F', b, canon(ev.args[-1] if ev.name != 'operator=' else ev.args[0])),), br, nest))]
            if b is not None and mentions(b, own) or b == THIS or ev.base is None and is_setter(ev.name or ''):
                return [st.w(cl=(stores + (('call', (b, ev.name), tuple(canon(a) for a in ev.args)),), br, nest))]
        elif ev.kind == 'enter':
            if is_setter(nm_of(ev)):
                return [st.w(cl=(stores, br, nest + (nm_of(ev),)))]
        elif ev.kind == 'exit':
            if nest and is_setter(nm_of(ev)):
                return [st.w(cl=(stores, br, nest[:-1]))]
        return None

    def branch(self, t, truth, st, node, func):
        if t is None:
            return st
        s, br, n = st.cl
        now = {x[1]: x[2] for x in s if x[0] == 'F'}
        return st.w(cl=(s, br + ((put(canon(t), now), truth),), n))


def put(t, now):
    """the term with the values that were stored"""
    if not isinstance(t, tuple) or not now:
        return t
    if t in now and now[t] is not None:
        return now[t]
    return tuple(put(x, now) for x in t)


def nm_of(ev):
    f = getattr(ev, 'func', None)
    return ev.name or (f.n if f is not None else '') or ''


def run_setter(prog, q, f):
    it = Interp(prog, SetC({q} | set(prog.bases_of(q))), q)
    return it.run(f, ((), (), ()))


def components(prog, q, name):
    """data members a getter returns, as a tuple"""
    hier = [q] + list(prog.bases_of(q))
    for b in hier:
        for g in plain(prog, b):
            if g.n in name and not g.params:
                out, _ = Interp(prog, SetC(set(hier)), q).run(g, ((), (), ()))
                rs = {canon(r) for st, r in out}
                if len(rs) != 1:
                    return None
                r = next(iter(rs))
                if r is not None and r[0] == 'F' and own(r):
                    return (r,)
                if r is not None and (r[0] == 'K' and 'tuple' in r[1] or r[0] == 'C' and r[1] in ('make_tuple', 'tie')):
                    cs = tuple(peel(x) for x in (r[2] if r[0] == 'K' else r[3]))
                    if cs and all(own(c) for c in cs):
                        return cs
                p = peel(r)
                if own(p):
                    return (p,)
                return None
    return None


def feasible(prog, f, st):
    """False for paths on which an enumeration has none of its values"""
    ex = {}
    for t, v in st.cl[1]:
        if t is not None and t[0] == 'B' and t[1] == '==' and not v:
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if b is not None and b[0] == 'E':
                    ex.setdefault(a, set()).add(b[1])
    for a, names in ex.items():
        q = next(iter(names)).rsplit('::', 1)[0]
        e = prog.enums.get(q) or prog.enums.get(q.rsplit('::', 1)[0])
        if e is not None and {v['v'] for v in e['vals']} <= {v['v'] for v in e['vals'] for x in names if x.split('::')[-1] == v['n']}:
            return False
    return True


def decided_by(st, p, val):
    """the parameter has a special value, or is replaced by the limit it is compared with"""
    for t, v in st.cl[1]:
        if t is None:
            continue
        if t == p or t[0] == 'U' and t[-1] == p or t[0] == 'C' and t[1] == 'empty' and canon(t[2]) == p:
            return True
        if t[0] == 'B' and p in (peel(t[2]), peel(t[3])):
            if v and t[1] == '==' or t[1] in ('<', '>', '<=', '>=') and peel(val) in (peel(t[2]), peel(t[3])):
                return True
    return False


# ---------------------------------------------------------------- setters and getters
def setters(prog, rep):
    n = pairs = 0
    kept = {}
    for q in sorted(prog.classes):
        if not q.startswith('Gem::'):
            continue
        for f in plain(prog, q):
            if not is_setter(f.n) or not f.params or f.d.get('static'):
                continue
            try:
                out, thrown = run_setter(prog, q, f)
            except AnalysisBroken:
                continue
            n += 1
            where = '%s::%s' % (short(q), f.n)
            ps = [('P', i, p['n']) for i, p in enumerate(f.params)]
            # a rejected value has not been stored
            ok = True
            for st, ty, node in thrown:
                if st.cl[2]:
                    continue
                if any(s[0] == 'F' and any(has(s[2], p) for p in ps) for s in st.cl[0]):
                    ok = False
            rep.ob(where + '/rejected', ok, f.loc, 'rejected-not-stored', 'a value is rejected after it has already been stored')
            if not out:
                continue
            sfx = f.n[3:].lstrip('_')
            sep = '_' if f.n[3] == '_' else ''
            cs = components(prog, q, ('get' + sep + sfx, 'get' + sep + sfx + '_', 'get_' + sfx))
            if cs is None or len(cs) != len(ps):
                continue
            pairs += 1
            bad = None
            for st, r in out:
                if not feasible(prog, f, st):
                    continue
                for c, p in zip(cs, ps):
                    ss = [s for s in st.cl[0] if s[0] == 'F' and s[1] == c]
                    if ss and peel(ss[-1][2]) == p:
                        continue
                    if ss and ss[-1][2] is not None and ss[-1][2][0] == 'K' and not any(has(ss[-1][2], x) for x in ps if x != p) and has(ss[-1][2], p):
                        continue
                    if ss and ss[-1][2] is not None and not any(has(ss[-1][2], x) for x in ps) and decided_by(st, p, ss[-1][2]):
                        continue
                    bad = p[2]
            rep.ob(where + '/read back', bad is None, f.loc, 'set-then-get', 'the value which was set (%s) is not the one that is read back' % bad)
            if len(ps) == 1:
                kept.setdefault((q, cs[0]), set()).add(f.n)
    for (q, c), names in sorted(kept.items(), key=str):
        rep.ob('%s/%s alone' % (short(q), c[2]), len(names) == 1, prog.classes[q].loc if hasattr(prog.classes[q], 'loc') else '', 'one-setting-each', 'several settings share a data member: ' + ', '.join(sorted(names)))
    return n, pairs


# ---------------------------------------------------------------- configuration options
class RegC(Client):
    """records the options which are registered; cl = tuple of events"""
    max_depth = 4
    max_states = 400

    def __init__(self, hier):
        self.hier = hier

    def relevant(self, f):
        return f.body is not None and f.cls in self.hier and not f.n.startswith(('addConfigurationOptions', 'describeLocalOptions')) and any(x['k'] == 'call' and (nm(x) == 'registerFileParameter' or f.d.get('acc') != 'public' and str(nm(x)).startswith(('addConfigurationOptions', 'describeLocalOptions'))) for x in walk(f.body))

    def event(self, ev, st):
        if ev.kind == 'call' and ev.name in ('registerFileParameter', 'addConfigurationOptions_', 'addConfigurationOptions', 'describeLocalOptions_'):
            return [st.w(cl=st.cl + ((ev.name, ev.q, tuple(canon(a) for a in ev.args), ev.loc),))]
        return None


def literal(t):
    t = canon(t)
    while t is not None and t[0] == 'K' and t[2]:
        t = canon(t[2][0])
    return str(t[2]).strip('"') if t is not None and t[0] == 'L' and t[1] == 'str' else None


def sinks(prog, q, f, node):
    """per parameter of a call-back: where its value goes to on the paths"""
    it = Interp(prog, SetC({q} | set(prog.bases_of(q))), q)
    return [st for st, r in run_lambda(it, f, node, ((), (), ()))]


def uses(st, p):
    out = []
    for s in st.cl[0]:
        if s[0] == 'F' and has(s[2], p):
            out.append(s[1])
        elif s[0] == 'call' and any(has(a, p) for a in s[2]):
            out.append(('call',) + s[1])
    return out


def options(prog, rep):
    regs = {}
    n = 0
    for q in sorted(prog.classes):
        for f in plain(prog, q):
            if not any(x['k'] == 'call' and nm(x) == 'registerFileParameter' for x in walk(f.body)):
                continue
            if short(q) == 'GParserBuilder':
                continue
            hier = {q} | set(prog.bases_of(q))
            out, _ = Interp(prog, RegC(hier), q).run(f, ())
            lams = {id(x): x for g in [f] + [g for b in hier for g in plain(prog, b)] for x in walk(g.body) if x['k'] == 'lambda'}
            seen = {}
            for st, r in out:
                for e in st.cl:
                    seen[e] = f
            regs.setdefault(q, []).append((f, out, seen, lams))
    getters = {}
    for q, lst in sorted(regs.items()):
        hier = [q] + list(prog.bases_of(q))
        dests = {}
        names = {}
        for c in hier:
            for f, out, seen, lams in regs.get(c, []):
                for (name, eq, args, loc) in seen:
                    if name != 'registerFileParameter':
                        continue
                    lam = next((i for i, a in enumerate(args) if a is not None and a[0] == 'lam'), None)
                    ns = []
                    for a in args[:lam if lam is not None else None]:
                        if literal(a) is None:
                            break
                        ns.append(literal(a))
                    if lam is not None:
                        ns = ns[:max(1, lam // 2)]
                    else:
                        ns = ns[:1]
                    if not ns:
                        continue
                    for o in ns:
                        names.setdefault((o, literal(args[lam + 1]) if lam is not None and len(ns) == 2 and lam + 1 < len(args) else None), set()).add((eq, loc))
                    own_reg = c == q
                    where = '%s/%s' % (short(c), '+'.join(ns))
                    if lam is None:
                        # reference: the data member itself
                        d = [peel(args[1])] if len(args) > 1 else []
                        if own_reg:
                            n += 1
                            rep.ob(where + '/stored', bool(d) and d[0] is not None, loc, 'option-reaches-setting', 'the option is not connected to a setting')
                        for x in d:
                            dests.setdefault(x, set()).add(where)
                        continue
                    node = lams.get(args[lam][1])
                    if node is None:
                        continue
                    rs = sinks(prog, c, f, node)
                    ps = [('V', p['id'], p['n']) for p in node['p']]
                    if own_reg:
                        n += 1
                        rep.ob(where + '/values', len(ps) == len(ns), loc, 'option-reaches-setting', 'the call-back does not receive all values of the option')
                    per = []
                    for p in ps:
                        here = set()
                        lost = False
                        for st in rs:
                            u = uses(st, p)
                            here |= set(u)
                            if not u and feasible(prog, f, st) and not any(mentions(t, lambda y: y == p) for t, v in st.cl[1] if t is not None):
                                lost = True
                        per.append(here)
                        if own_reg:
                            rep.ob(where + '/stored', bool(here) and not lost, loc, 'option-reaches-setting', 'the value of the option (%s) does not reach a setting' % p[2])
                    only = [{x for x in h if x[0] == 'F'} for h in per]
                    for h in only:
                        for x in h:
                            dests.setdefault(x, set()).add(where)
                    if not own_reg:
                        continue
                    if len(only) == 2 and all(only):
                        rep.ob(where + '/apart', not (only[0] & only[1]), loc, 'one-setting-each', 'both values of the option are stored in the same setting')
                    # the right setting: default taken from the member, or a getter of the same name
                    for i, (o, h) in enumerate(zip(ns, only)):
                        dv = peel(args[len(ns) + i]) if len(ns) + i < lam else None
                        if own(dv) and h:
                            rep.ob(where + '/default', dv in h, loc, 'right-setting', 'the option %s changes another setting than its default value was taken from' % o)
                        O = o[0].upper() + o[1:]
                        cs = components(prog, q, ('get' + O, 'is' + O, o))
                        if cs is not None and len(cs) == 1 and h:
                            rep.ob(where + '/getter', cs[0] in h, loc, 'right-setting', 'the option %s does not change what %s() reports' % (o, 'get' + O))
        for (o, label), at in sorted(names.items(), key=str):
            rep.ob('%s/option %s unique' % (short(q), o), len(at) == 1, regs[q][0][0].loc, 'unique-name', 'the option %s is registered more than once' % o)
        for d, who in sorted(dests.items(), key=str):
            rep.ob('%s/%s has one option' % (short(q), d[-1] if isinstance(d[-1], str) else str(d)[:60]), len(who) == 1, regs[q][0][0].loc, 'one-setting-each', 'several options change the same setting: ' + ', '.join(sorted(who)))
    # an override passes on to its parent
    up = 0
    for q in sorted(prog.classes):
        if not q.startswith('Gem::'):
            continue
        for f in plain(prog, q):
            if f.n not in ('addConfigurationOptions_', 'addConfigurationOptions', 'describeLocalOptions_') or len(f.params) != 1:
                continue
            parents = [g for b in prog.bases_of(q) for g in prog.bycls.get(b, []) if g.n == f.n and g.body is not None and (b in regs or any(nm(x) == f.n for x in walk(g.body) if x['k'] == 'call'))]
            if not parents or not f.d.get('virt'):
                continue
            hier = {q} | set(prog.bases_of(q))
            out, _ = Interp(prog, RegC(hier), q).run(f, ())
            up += 1
            p0 = ('P', 0, f.params[0]['n'])
            ok = bool(out) and all(any(e[0] == f.n and e[2] and e[2][0] == p0 for e in st.cl) for st, r in out)
            rep.ob('%s::%s/parent' % (short(q), f.n), ok, f.loc, 'parent-options', 'the options of the parent class are not registered')
    return n, up


# ---------------------------------------------------------------- the parser
class IO(Client):
    """reading from and writing to the tree of options; cl = (stores, puts, calls)"""
    max_depth = 4
    max_states = 500

    def __init__(self, hier):
        self.hier = hier

    def relevant(self, f):
        return f.body is not None and f.cls in self.hier and f.n not in ('splitComment', 'comment', 'hasComments', 'numberOfComments', 'optionName')

    def event(self, ev, st):
        if ev.kind == 'assign' and ev.lhs is not None:
            return [st.w(cl=add(st.cl, ('set', canon(ev.lhs), canon(ev.rhs))))]
        if ev.kind == 'call':
            b = canon(ev.base) if ev.base is not None else None
            return [st.w(cl=add(st.cl, ('call', ev.name, b, tuple(canon(a) for a in ev.args))))]
        return None


def add(tr, x):
    return tr if x in tr else tr + (x,)


def parts(t):
    """a path of the tree as text"""
    t = peel(t)
    if t is None:
        return '?'
    if t[0] == 'B' and t[1] == '+':
        return parts(t[2]) + parts(t[3])
    if t[0] == 'L' and t[1] == 'str':
        return str(t[2]).strip('"')
    if t[0] == 'C' and t[1] == 'optionName':
        return '<option %s>' % (t[3][0][2] if t[3] and t[3][0][0] == 'L' else '?')
    if t[0] == 'C' and t[1] == 'to_string':
        return '<i>'
    if t[0] == 'F':
        return '<%s>' % t[2]
    return '?'


def member(t):
    """the data member a value is (part of)"""
    t = canon(t)
    while t is not None:
        if own(t):
            return t
        if t[0] in ('X', 'elem'):
            t = canon(t[1])
        elif t[0] == 'C' and t[1] in ('at', 'operator[]', 'data', 'begin', 'cbegin') and t[2] is not None:
            t = canon(t[2])
        elif t[0] == 'K' and len(t[2]) >= 1:
            t = canon(t[2][0])
        else:
            return None
    return None


def source(t):
    """(path, default) a value was read from"""
    for y in subterms(t or ()):
        if y[0] == 'C' and y[1] == 'get' and y[2] is not None and y[2][0] == 'P' and y[3]:
            return parts(y[3][0]), (member(y[3][1]) if len(y[3]) > 1 else None)
        if y[0] == 'C' and y[1] in ('get_child', 'get_child_optional') and y[3]:
            return parts(y[3][0]) + '.', None
    return None


def proxies(prog, rep):
    n = 0
    for q in sorted(prog.classes):
        fs = {f.n: f for f in plain(prog, q)}
        if not {'load_from', 'save_to', 'executeCallBackFunction_'} <= set(fs):
            continue
        n += 1
        hier = {q} | set(prog.bases_of(q))
        where = short(q)
        res = {}
        for name in ('load_from', 'save_to', 'executeCallBackFunction_'):
            out, thrown = Interp(prog, IO(hier), q).run(fs[name], ())
            res[name] = [st.cl for st, r in out]
        # what is read, and from where
        read = {}
        for tr in res['load_from']:
            for x in tr:
                if x[0] == 'set':
                    m, s = member(x[1]), source(x[2])
                    if m is not None and s is not None:
                        read.setdefault(m, set()).add(s)
                elif x[0] == 'call' and x[1] in ('push_back', 'emplace_back') and x[3]:
                    m, s = member(x[2]), source(x[3][0])
                    if m is not None and s is not None:
                        read.setdefault(m, set()).add(s)
        lf, sf = fs['load_from'], fs['save_to']
        rep.ob(where + '/read', bool(read), lf.loc, 'read-written-alike', 'no value is taken from the file')
        opts = {}
        for m, ss in sorted(read.items(), key=str):
            rep.ob('%s/%s from one place' % (where, m[2]), len(ss) == 1, lf.loc, 'read-written-alike', 'a value is read from several places of the file')
            path, dflt = sorted(ss, key=str)[0]
            # a value that is not found in the file
            missing = dflt
            if path.endswith('.'):
                for tr in res['load_from']:
                    for x in tr:
                        if x[0] == 'set' and member(x[1]) == m and source(x[2]) is None and member(x[2]) not in (None, m):
                            missing = member(x[2])
            rep.ob('%s/%s default' % (where, m[2]), missing is not None and missing not in read, lf.loc, 'missing-means-default', 'no default value is used if the option is missing in the file')
            on = [p for p in path.replace('.', '|').split('|') if p.startswith('<option')]
            rep.ob('%s/%s named' % (where, m[2]), len(on) == 1 and '?' not in path, lf.loc, 'read-written-alike', 'the value is not read under the name of the option')
            if on:
                rep.ob('%s/%s names differ' % (where, m[2]), on[0] not in opts, lf.loc, 'read-written-alike', 'two values are read under the same name')
                opts[on[0]] = m
            # written to the same place
            done = bool(res['save_to'])
            for tr in res['save_to']:
                puts = [(parts(x[3][0]), member(x[3][1]), x[1]) for x in tr if x[0] == 'call' and x[1] in ('put', 'add') and x[2] is not None and x[2][0] == 'P' and len(x[3]) > 1]
                mine = [p for p, v, k in puts if v == m]
                loops = any(x[0] == 'call' and x[1] in ('size', 'begin', 'cbegin', 'end', 'cend') for x in tr) or path.endswith('.') or '<i>' in path
                if not mine and not loops:
                    done = False
                if any(not (p == path or path.endswith('.') and p.startswith(path)) for p in mine):
                    done = False
                if any(v != m and (p == path or path.endswith('.') and p.startswith(path)) for p, v, k in puts):
                    done = False
                if missing is not None and any(v == missing and p == path for p, v, k in puts):
                    done = False
            anywhere = any(member(x[3][1]) == m for tr in res['save_to'] for x in tr if x[0] == 'call' and x[1] in ('put', 'add') and len(x[3]) > 1)
            rep.ob('%s/%s written' % (where, m[2]), done and anywhere, sf.loc, 'read-written-alike', 'the value is not written to the place it is read from')
            if path.endswith('.'):
                # as many values as there are
                free = all(not (x[0] == 'call' and x[1] in ('put', 'add') and len(x[3]) > 1 and member(x[3][1]) == m and deref_of_other(x[3][1], m)) for tr in res['save_to'] for x in tr)
                rep.ob('%s/%s all written' % (where, m[2]), free, sf.loc, 'all-values-written', 'the number of values written is not that of the values')
        # passed on in the order of the names
        ef = fs['executeCallBackFunction_']
        for tr in res['executeCallBackFunction_']:
            calls = [x for x in tr if x[0] == 'call' and x[3] and all(member(a) in read for a in x[3])]
            sets = [x for x in tr if x[0] == 'set' and member(x[2]) in read]
            order = [opts.get('<option %d>' % i) for i in range(len(opts))]
            ok = any([member(a) for a in x[3]] == order for x in calls) or len(order) == 1 and any(member(x[2]) == order[0] for x in sets)
            rep.ob(where + '/passed on', ok and len(calls) + len(sets) == 1, ef.loc, 'values-passed-on', 'the values that were read are not passed on in the order of their names')
    return n


def deref_of_other(t, m):
    """an iterator of the container which is not the variable of a loop over it"""
    t = canon(t)
    return t is not None and t[0] in ('X', 'B') or t is not None and t[0] == 'C' and t[1] in ('begin', 'cbegin')


# ---------------------------------------------------------------- registration
def plainer(t):
    return t.replace('std::', '').replace('basic_string<char>', 'string').replace(' ', '').replace('const', '').replace('&', '')


def ctor_values(prog, cls, args, depth=0, sig=None):
    """data member -> argument term, for the constructor taking these arguments"""
    cs = [f for f in prog.bycls.get(cls, []) if f.d.get('kind') == 'ctor' and f.d.get('mode') != 'inst' and len(f.params) == len(args)]
    if len(cs) > 1 and sig:
        cs = [f for f in cs if plainer('(' + ', '.join(str(p.get('t')) for p in f.params) + ')') == plainer(sig)]
    if len(cs) > 1:
        cs = [f for f in cs if all(('vector' in str(p.get('t'))) == (isinstance(a, tuple) and bool(a) and a[0] == 'vec') for p, a in zip(f.params, args) if a is not None)] or cs
    if len(cs) != 1 or depth > 6:
        return None
    f = cs[0]
    env = {p['n']: a for p, a in zip(f.params, args)}

    def val(e):
        if e is None:
            return None
        k = e['k']
        if k == 'ref' and e.get('rk') == 'param':
            return env.get(e['n'])
        if k == 'call' and e.get('n') in ('move', 'forward') and len(e['a']) == 1:
            return val(e['a'][0])
        if k == 'call' and e.get('n') == 'makeVector':
            return ('vec', tuple(val(a) for a in e['a']))
        if k in ('init', 'ctor') and len(e.get('a', e.get('e', []))) == 1 and (e.get('cm') or 'vector' not in str(e.get('t'))):
            return val(e.get('a', e.get('e'))[0])
        if k in ('init', 'ctor', 'cast', 'paren') and e.get('s') is not None:
            return val(e['s'])
        if k in ('init',):
            return ('vec', tuple(val(a) for a in e.get('a', e.get('e', []))))
        return None
    out = {}
    for i in f.d.get('inits') or []:
        if i.get('b'):
            e = i.get('e') or {}
            sub_ = ctor_values(prog, i['b'].split('<')[0], [val(a) for a in e.get('a', [])], depth + 1, e.get('sg'))
            if sub_ is None:
                sub_ = {}
            out.update(sub_)
        elif i.get('m') or i.get('n'):
            out[i.get('m') or i.get('n')] = val(i.get('e'))
    return out


class NewC(Client):
    max_depth = 3

    def __init__(self, hier, stop=()):
        self.hier, self.stop = hier, stop

    def relevant(self, f):
        return f.body is not None and f.cls in self.hier and f.n not in self.stop

    def event(self, ev, st):
        if ev.kind == 'call' and ev.name in ('registerCallBackFunction', 'push_back', 'emplace_back'):
            return [st.w(cl=st.cl + ((ev.name, canon(ev.base) if ev.base is not None else None, tuple(canon(a) for a in ev.args)),))]
        return None


def registration(prog, rep):
    n = 0
    read_as = {}
    for f in prog.funcs:
        if f.n != 'registerFileParameter' or f.body is None or f.d.get('mode') == 'inst':
            continue
        q = f.cls
        n += 1
        where = '%s::%s/%s' % (short(q), f.n, ' '.join(p['n'] for p in f.params)[:60])
        ps = [('P', i, p['n']) for i, p in enumerate(f.params)]
        names = []
        for i, p in enumerate(f.params):
            if 'string' in str(p.get('t')) and i == len(names):
                names.append(ps[i])
            else:
                break
        cb = [ps[i] for i, p in enumerate(f.params) if 'std::function' in str(p.get('t'))]
        flag = [ps[i] for i, p in enumerate(f.params) if str(p.get('t')) in ('bool', 'const bool', 'const bool &', 'bool const &')]
        k = len(names)
        if cb:
            want = {'def%d' % i: ps[k + i] for i in range(k)}
            ref = None
        else:
            ref = ps[k]
            want = {'def%d' % i: ps[k + 1 + i] for i in range(k)}
        out, _ = Interp(prog, NewC({q}), q).run(f, ())
        for st, r in out:
            made = [y for y in subterms(canon(r) or ()) if y[0] == 'N']
            rep.ob(where + '/created', bool(made), f.loc, 'registered', 'the object for the option is not created or not returned')
            if not made:
                continue
            obj = made[0]
            kept = any(x[0] in ('push_back', 'emplace_back') and own(x[1]) and any(y == obj for y in subterms(x[2])) for x in st.cl)
            rep.ob(where + '/kept', kept, f.loc, 'registered', 'the option is not added to the list of options')
            if cb:
                rep.ob(where + '/call-back', any(x[0] == 'registerCallBackFunction' and x[2] and cb[0] in x[2] and mentions(x[1], lambda y: y == obj) for x in st.cl), f.loc, 'registered', 'the call-back of the option is not registered')
            args = obj[2]
            while len(args) == 1 and args[0] is not None and args[0][0] in ('I', 'init', 'K') and isinstance(args[0][-1], tuple):
                args = args[0][-1]
            args = tuple(peel(a) for a in args)
            cls = next((c for c in prog.classes if short(c) == obj[1].split('<')[0].split('::')[-1]), None)
            vals = ctor_values(prog, cls, args) if cls else None
            if not vals:
                continue
            nv = next((v for m, v in vals.items() if isinstance(v, tuple) and v and (v[0] == 'vec' and names[0] in v[1] or v == names[0])), None)
            if nv is not None:
                got = [x for x in (nv[1] if nv[0] == 'vec' else (nv,)) if x is not None]
                rep.ob(where + '/name', got == names, f.loc, 'registered', 'the option is not registered under its name')
            held = [v for v in vals.values() if v is not None]
            for d, p in want.items():
                rep.ob(where + '/' + d, p in held, f.loc, 'registered', 'the default value of the option is not stored')
            if flag:
                rep.ob(where + '/essential', flag[0] in held, f.loc, 'registered', 'it is not recorded whether the option is essential')
            if ref is not None:
                rep.ob(where + '/reference', ref in held, f.loc, 'registered', 'the target of the option is not stored')
            # value number i is read under name number i
            lf = [g for g in plain(prog, cls) if g.n == 'load_from']
            if lf and nv is not None and nv[0] == 'vec':
                o2, _ = Interp(prog, IO({cls} | set(prog.bases_of(cls))), cls).run(lf[0], ())
                for s2, r2 in o2:
                    for x in s2.cl:
                        if x[0] == 'set' and member(x[1]) is not None and source(x[2]) is not None:
                            path, dflt = source(x[2])
                            for i in range(len(nv[1])):
                                if '<option %d>' % i in path and want.get('def%d' % i) is not None:
                                    for m in (member(x[1]), dflt):
                                        v = vals.get(m[2]) if m is not None else None
                                        if v is not None:
                                            rep.ob('%s/value %d' % (where, i), v == want['def%d' % i], f.loc, 'registered', 'the default values are not those of the options they are stored for')
    rep.floor('ways of registering an option', n, 3)
    return n


def parsing(prog, rep):
    from rules.c_broker import Rec
    n = 0
    for q in sorted(prog.classes):
        fs = {f.n: f for f in plain(prog, q)}
        if not {'parseConfigFile', 'writeConfigFile'} <= set(fs):
            continue
        n += 1
        hier = {q}

        def sel(ev, st):
            if ev.kind == 'call' and ev.name in ('load_from', 'executeCallBackFunction', 'executeCallBackFunction_', 'save_to', 'read_json', 'writeConfigFile', 'write_json', 'exists', 'parse_command_line', 'notify'):
                return (ev.name, canon(ev.base) if ev.base is not None else None, tuple(canon(a) for a in ev.args))
            return None
        # reading
        f = fs['parseConfigFile']
        where = '%s::%s' % (short(q), f.n)
        k = Rec(hier, sel, lambda t, v, st: ('br', canon(t), v), lambda ev: ('std::exception',) if ev.name in ('load_from', 'executeCallBackFunction', 'executeCallBackFunction_', 'read_json', 'writeConfigFile') else (), ('writeConfigFile',))
        out, thrown = Interp(prog, k, q).run(f, ((), ()))
        good = [st for st, r in out if r is not None and litbool(canon(r)) is True]
        rep.ob(where + '/success', bool(good), f.loc, 'all-options-read', 'no path reports success')
        for st, r in out:
            rep.ob(where + '/reported', r is not None and litbool(canon(r)) is not None, f.loc, 'outcome-reported', 'the outcome is not reported')
        bodies = [tr for nd, s, tr in k.loops]
        acts = [tr for tr in bodies if any(x[0] in ('load_from', 'executeCallBackFunction', 'executeCallBackFunction_') for x in tr)]
        rep.ob(where + '/loop', bool(acts), f.loc, 'all-options-read', 'the options are not read one after the other')
        names = ('load_from', 'executeCallBackFunction', 'executeCallBackFunction_')
        for tr in bodies:
            seq = [x for x in tr if x[0] in names]
            if not acts or not any(any(x[0] in names for x in t2) for t2 in bodies):
                continue
        loops_with = {id(nd) for nd, s, tr in k.loops if any(x[0] in names for x in tr)}
        loaded = set()
        ran = set()
        for nd, s, tr in k.loops:
            if id(nd) not in loops_with:
                continue
            seq = [x for x in tr if x[0] in names]
            ls = [x for x in seq if x[0] == 'load_from']
            es = [x for x in seq if x[0] != 'load_from']
            both = ls and es
            if both:
                rep.ob(where + '/order', seq.index(ls[0]) < seq.index(es[0]) and ls[0][1] == es[0][1], f.loc, 'all-options-read', 'the value of an option is passed on before it was read')
            loaded.add((id(nd), bool(ls)))
            ran.add((id(nd), bool(es)))
            cs = {member(x[1]) for x in seq}
            rep.ob(where + '/options', len(cs) == 1 and None not in cs, f.loc, 'all-options-read', 'other objects than the registered options are read')
        for lab, S in (('load', loaded), ('pass on', ran)):
            full = {i for i, b in S if b} - {i for i, b in S if not b}
            rep.ob('%s/every option: %s' % (where, lab), bool(full), f.loc, 'all-options-read', 'some options are skipped')
        rep.ob(where + '/not left', not [1 for nd, tr in k.broke if id(nd) in loops_with], f.loc, 'all-options-read', 'the remaining options are skipped')
        for st in good:
            tr = st.cl[0]
            rep.ob(where + '/read file', any(x[0] == 'read_json' for x in tr), f.loc, 'all-options-read', 'success is reported although the file has not been read')
            rep.ob(where + '/after the options', any(x[0] in ('body', 'left') and x[1] in loops_with for x in tr), f.loc, 'all-options-read', 'success is reported although the options have not been read')
            # the file that is read is the one that is created if it does not exist
            rd = [x[2][0] for x in tr if x[0] == 'read_json']
            wr = [x[2][0] for x in tr if x[0] == 'writeConfigFile' and x[2]]
            ex = [x[1] for x in tr if x[0] == 'br' and x[1] is not None and x[1][0] == 'C' and x[1][1] == 'exists' and not x[2] and x[1][3] and x[1][3][0] in wr]
            if wr:
                rep.ob(where + '/created', rd and rd[-1] == wr[-1] and bool(ex), f.loc, 'created-if-missing', 'the file that is created is not the missing one, or not the one that is read')
        # writing
        f = fs['writeConfigFile']
        where = '%s::%s' % (short(q), f.n)
        k = Rec(hier, sel, lambda t, v, st: ('br', canon(t), v), None, ())
        out, thrown = Interp(prog, k, q).run(f, ((), ()))
        allp = [('P', i, p['n']) for i, p in enumerate(f.params) if str(p.get('t')).startswith('bool')]
        loops_with = {id(nd) for nd, s, tr in k.loops if any(x[0] == 'save_to' for x in tr)}
        rep.ob(where + '/loop', bool(loops_with), f.loc, 'all-options-written', 'the options are not written one after the other')
        for nd, s, tr in k.loops:
            if id(nd) not in loops_with:
                continue
            saved = [x for x in tr if x[0] == 'save_to']
            known = [(x[1], x[2]) for x in tr if x[0] == 'br'] + [(x[0], x[1]) for x in []]
            ess = [v for t, v in known if t is not None and t[0] == 'C' and 'ssential' in t[1] or t is not None and t[0] == 'F' and 'ssential' in t[2]]
            if not saved:
                rep.ob(where + '/skipped', ess == [False], f.loc, 'all-options-written', 'an option is not written although it is essential')
                wanted = [v for t, v in known if t in allp]
                rep.ob(where + '/all', True not in wanted, f.loc, 'all-options-written', 'an option is not written although all were requested')
        rep.ob(where + '/not left', not [1 for nd, tr in k.broke if id(nd) in loops_with], f.loc, 'all-options-written', 'the remaining options are not written')
        for st, r in out:
            tr = st.cl[0]
            w = [i for i, x in enumerate(tr) if x[0] == 'write_json']
            l = [i for i, x in enumerate(tr) if x[0] in ('body', 'left') and x[1] in loops_with]
            rep.ob(where + '/file', bool(w) and bool(l) and l[0] < w[-1], f.loc, 'all-options-written', 'the file is not written after all options were collected')
    rep.floor('parsers of configuration files', n, 1)
    return n


def factories(prog, rep):
    n = 0
    for q in sorted(prog.classes):
        for f in plain(prog, q):
            if f.n != 'getObject_' or len(f.params) != 2:
                continue
            p0 = ('P', 0, f.params[0]['n'])
            n += 1
            out, _ = Interp(prog, RegC({q} | set(prog.bases_of(q))), q).run(f, ())
            where = '%s::%s' % (short(q), f.n)
            for st, r in out:
                rep.ob(where + '/options', any(e[0].startswith('addConfigurationOptions') and p0 in e[2] for e in st.cl), f.loc, 'object-options', 'the options of the object are not registered')
    m = 0
    for q in sorted(prog.classes):
        for f in plain(prog, q):
            if f.n != 'get_' or f.params or not any(nm(x) == 'parseConfigFile' for x in walk(f.body) if x['k'] == 'call'):
                continue
            m += 1
            where = '%s::%s' % (short(q), f.n)

            class G(Client):
                max_depth = 2

                def relevant(s, g):
                    return False

                def event(s, ev, st):
                    if ev.kind == 'call' and ev.name in ('describeLocalOptions_', 'getObject_', 'parseConfigFile', 'postProcess_'):
                        return [st.w(cl=st.cl + ((ev.name, canon(ev.base) if ev.base is not None else None, tuple(canon(a) for a in ev.args)),))]

                def branch(s, t, truth, st, node, func):
                    t = canon(t)
                    if t is not None and t[0] == 'C' and t[1] == 'parseConfigFile':
                        return st.w(cl=st.cl + (('parsed', truth),))
                    return st
            out, thrown = Interp(prog, G(), q).run(f, ())
            for st, r in out:
                names = [e[0] for e in st.cl]
                want = ['describeLocalOptions_', 'getObject_', 'parseConfigFile', 'postProcess_']
                pos = [names.index(w) if w in names else None for w in want]
                ok = None not in pos and max(pos[:2]) < pos[2] < pos[3]
                rep.ob(where + '/order', ok, f.loc, 'configured-before-use', 'the options are not read between the creation of the object and its adaption')
                rep.ob(where + '/parsed', ('parsed', True) in st.cl, f.loc, 'configured-before-use', 'an object is handed out although the configuration could not be read')
                made = [('C', e[0], e[1], e[2]) for e in st.cl if e[0] == 'getObject_']
                same = lambda t: t is not None and mentions(t, lambda y: y[0] == 'C' and y[1] == 'getObject_')
                rep.ob(where + '/returned', same(canon(r)) and all(same(e[2][0]) for e in st.cl if e[0] == 'postProcess_'), f.loc, 'configured-before-use', 'another object than the configured one is handed out')
    rep.floor('factories', n, 3)
    return n, m


def run22(prog, rep):
    n, pairs = setters(prog, rep)
    rep.floor('functions changing a setting', n, 100)
    rep.floor('settings which can be read back', pairs, 50)
    o, up = options(prog, rep)
    rep.floor('configuration options', o, 60)
    p = proxies(prog, rep)
    rep.floor('kinds of options', p, 3)
    r = registration(prog, rep)
    g = parsing(prog, rep)
    fa = factories(prog, rep)
    for a, b in (('setting functions', n), ('settings read back', pairs), ('options', o), ('overrides passing options on', up), ('kinds of options', p), ('registration functions', r), ('factories', fa[0])):
        rep.stat(a, b)


register('C22', run22, 'all',
         'A symbolic path analysis of all setters and getters, of all call-backs of configuration options and of the parser: '
         'what is stored, read back, read from and written to the configuration file is compared term by term.',
         'setters and getters, registered options with their call-backs, kinds of options, the parser and the factories',
         level='other', assumptions=['the value behind an option is the data member its call-back stores to'])
