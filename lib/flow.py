"""A structured, path-sensitive dataflow interpreter over the extracted program.

The abstract state of a path is
  env    local/parameter id -> term   (must-alias / value description)
  facts  term -> bool                 (branch outcomes that still hold)
  locks  tuple of (mutex term, lock variable id, mode)
  cl     the client's own (hashable) state
Terms are canonical access paths / expressions (nested tuples). Casts, smart
pointer dereferences, std::move and trivially returning accessors are
transparent, calls to functions which a client calls "relevant" are inlined,
so extracting a helper or introducing an alias does not change what is seen.
"""
import itertools, sys
sys.setrecursionlimit(20000)
from facts import walk, kids, s as show, AnalysisBroken

THIS = ('this',)

TRANSPARENT_CALLS = {
    'std::move', 'std::forward', 'std::ref', 'std::cref', 'std::addressof', 'std::as_const',
    'std::static_pointer_cast', 'std::dynamic_pointer_cast', 'std::const_pointer_cast',
    'move', 'forward', 'dynamic_pointer_cast', 'static_pointer_cast',
}
LOCK_TYPES = ('lock_guard', 'unique_lock', 'scoped_lock', 'shared_lock')


def tshow(t):
    if not isinstance(t, tuple):
        return str(t)
    k = t[0]
    if k == 'this':
        return 'this'
    if k == 'F':
        return t[2] if t[1] == THIS else '%s.%s' % (tshow(t[1]), t[2])
    if k == 'P':
        return str(t[2])
    if k == 'V':
        return str(t[2])
    if k == 'C':
        b = '' if t[2] is None or t[2] == THIS else tshow(t[2]) + '.'
        return '%s%s(%s)' % (b, t[1].split('::')[-1], ', '.join(tshow(a) for a in t[3]))
    if k == 'L':
        return str(t[2])
    if k == 'E':
        return t[1].split('::')[-1]
    if k == 'B':
        return '(%s %s %s)' % (tshow(t[2]), t[1], tshow(t[3]))
    if k == 'U':
        return '%s%s' % (t[1], tshow(t[2]))
    if k == 'D':
        return '*' + tshow(t[1])
    if k == 'A':
        return '&' + tshow(t[1])
    if k == 'X':
        return '%s[%s]' % (tshow(t[1]), tshow(t[2]))
    if k == 'G':
        return t[1]
    if k == 'K':
        return '%s{%s}' % (t[1], ', '.join(tshow(a) for a in t[2]))
    if k == 'lam':
        return '[lambda]'
    if k == 'src':
        return 'source'
    if k == 'elem':
        return 'element of ' + tshow(t[1])
    if k == 'N':
        return 'new %s(%s)' % (t[1], ', '.join(tshow(a) for a in t[2]))
    return str(t)


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t[1:] if t and isinstance(t[0], str) else t:
            if isinstance(x, tuple):
                yield from subterms(x)


def mentions(t, f):
    return any(f(x) for x in subterms(t))


class St:
    __slots__ = ('env', 'facts', 'locks', 'cl', '_k')

    def __init__(s, env, facts, locks, cl):
        s.env = env; s.facts = facts; s.locks = locks; s.cl = cl; s._k = None

    def key(s):
        if s._k is None:
            s._k = (frozenset(s.env.items()), frozenset(s.facts.items()), s.locks, s.cl)
        return s._k

    def w(s, **kw):
        return St(kw.get('env', s.env), kw.get('facts', s.facts), kw.get('locks', s.locks), kw.get('cl', s.cl))

    def bind(s, i, t):
        if s.env.get(i) == t:
            return s
        e = dict(s.env); e[i] = t
        return s.w(env=e)


def dedupe(sts, cap=None):
    seen = {}
    for x in sts:
        seen.setdefault(x.key(), x)
    r = list(seen.values())
    return r


class Ev:
    """event passed to the client"""
    __slots__ = ('kind', 'node', 'name', 'q', 'base', 'args', 'lhs', 'rhs', 'op', 'func', 'line', 'extra', 'stack')

    def __init__(s, kind, node, **kw):
        s.kind = kind; s.node = node; s.name = s.q = s.base = s.lhs = s.rhs = s.op = s.func = s.extra = None
        s.args = (); s.stack = ()
        for k, v in kw.items():
            setattr(s, k, v)
        s.line = node.get('l', 0) if node else 0

    @property
    def loc(s):
        return '%s:%d' % (s.func.loc.rsplit(':', 1)[0], s.line)


class Client:
    """default client: no events"""
    max_depth = 6
    max_states = 400

    def relevant(self, func):          # inline this callee?
        return False

    def event(self, ev, st):           # -> list of St  (or None: unchanged)
        return None

    def branch(self, term, truth, st, node, func):  # -> St or None (infeasible)
        return st

    def may_throw(self, ev, st):       # -> list of exception type names ('*' unknown)
        return ()

    keep_bools = False                 # loop heads keep boolean constants of flags

    def must_throw(self, ev, st):      # the call never returns normally here
        return False

    def transparent(self, name, q, args):    # -> index of the argument a call is an identity for
        return None

    def resolve(self, interp, ev):     # -> Func to inline, or None for default
        return None


class Helpers(Client):
    """follows calls of the non-public functions of the analysed class"""
    def __init__(self, prog, q, skip=()):
        self.own = {q} | set(prog.bases_of(q))
        self.skip = set(skip)

    def relevant(self, func):
        return func.cls in self.own and func.d.get('acc') != 'public' and not func.d.get('virt') and func.n not in self.skip


def class_nodes(prog, f):
    """the nodes of a function and of the non-public functions of its class it calls, directly or not"""
    seen = {f.key}
    todo = [f]
    while todo:
        g = todo.pop()
        for x in walk(g.body):
            yield x
            if x['k'] == 'call':
                n = (x.get('f') or {}).get('n') or x.get('n')
                for h in prog.bycls.get(g.cls, []):
                    if h.n == n and h.body and h.key not in seen and h.d.get('mode') != 'inst' and h.d.get('acc') != 'public':
                        seen.add(h.key)
                        todo.append(h)


def extracted(fs, also=()):
    """the non-public, non-virtual functions among fs which others of them call: parts of those"""
    called = {}
    for f in fs:
        if f.body:
            for x in walk(f.body):
                if x['k'] == 'call':
                    called.setdefault((x.get('f') or {}).get('n') or x.get('n'), set()).add(f.n)
    return {f.key for f in fs if f.d.get('acc') != 'public' and not f.d.get('virt') and f.d.get('kind') == 'method' and called.get(f.n, set()) - {f.n}}


def strip_targs(q):
    r, d = '', 0
    for ch in q:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            r += ch
    return r


SLOT = ('at', '[]', 'operator[]', 'front', 'back')    # accessors whose value is an element of the container


class Interp:
    def __init__(self, prog, client, root_cls=None):
        self.p = prog; self.c = client; self.root_cls = root_cls
        self.stack = []
        self.exc = [[]]
        self.paths = 0
        self.nfuncs = set()
        self.truncated = False
        self._opq = itertools.count()
        self.refids = set()

    # ------------------------------------------------------------ entry
    def run(self, func, cl, args=None, env=None, locks=()):
        """returns (normal [(St, retterm)], thrown [(St, type, node)])"""
        e = dict(env or {})
        for i, pr in enumerate(func.params):
            e[pr['id']] = (args[i] if args and i < len(args) and args[i] is not None else ('P', i, pr['n']))
        st = St(e, {}, tuple(locks), cl)
        self.exc = [[]]
        self.stack = [func]
        self.nfuncs.add(func.key)
        sts = [st]
        if func.inits:
            sts = self.ctor_inits(func, sts)
        out = self.body(func.body, sts)
        return out, self.exc[0]

    def ctor_inits(self, func, sts):
        for i in func.inits:
            if not i.get('e'):
                continue
            nxt = []
            for st in sts:
                for st2, t in self.ev(i['e'], st):
                    nxt += self.emit(Ev('init', i, name=i.get('m') or i.get('b'), lhs=('F', THIS, i['m']) if i.get('m') else None, rhs=t, func=func, extra=i), st2)
            sts = dedupe(nxt)
        return sts

    def body(self, b, sts):
        """execute a function/lambda body; returns [(St, retterm)]"""
        o = self.exec(b, sts)
        r = [(x, None) for x in o['n']]
        r += o['r']
        return r

    def cap(self, sts):
        sts = dedupe(sts)
        if len(sts) > self.c.max_states:
            self.truncated = True
            # forget branch facts first, then aliases
            sts = dedupe([x.w(facts={}) for x in sts])
            if len(sts) > self.c.max_states:
                by = {}
                for x in sts:
                    by.setdefault((x.locks, x.cl), []).append(x)
                sts = []
                for g in by.values():
                    env = dict(g[0].env)
                    for y in g[1:]:
                        for k in list(env):
                            if y.env.get(k) != env[k]:
                                env[k] = ('V', k, '?')
                    sts.append(g[0].w(env=env))
                sts = dedupe(sts)
        return sts

    # ------------------------------------------------------------ statements
    @staticmethod
    def out():
        return {'n': [], 'b': [], 'c': [], 'r': []}

    def exec(self, n, sts):
        o = self.out()
        if n is None or not sts:
            o['n'] = sts
            return o
        k = n['k']
        m = getattr(self, 'x_' + k, None)
        if m:
            return m(n, sts)
        # expression statement
        r = []
        for st in sts:
            r += [x for x, _ in self.ev(n, st)]
        o['n'] = self.cap(r)
        return o

    def x_block(self, n, sts):
        o = self.out()
        cur = sts
        declared = []
        mark = len(self.exc[-1])
        for x in n['b']:
            if x is None:
                continue
            r = self.exec(x, cur)
            if x['k'] == 'decl':
                declared += [d for d in x['d']]
            for kk in 'bcr':
                o[kk] += r[kk]
            cur = r['n']
        o['n'] = cur
        ids = {d['id'] for d in declared}
        if ids:
            dv = [d for d in declared if d.get('tq')]
            o['n'] = self.scope_end(o['n'], ids, dv)
            o['b'] = self.scope_end(o['b'], ids, dv)
            o['c'] = self.scope_end(o['c'], ids, dv)
            o['r'] = [(y, t) for x, t in o['r'] for y in self.scope_end([x], ids, dv)]
            ex = self.exc[-1]
            ex[mark:] = [(y,) + tuple(rest) for x, *rest in ex[mark:] for y in self.scope_end([x], ids, dv)]
        return o

    def scope_end(self, sts, ids, dv=()):
        r = []
        for x in sts:
            if any(l[1] in ids for l in x.locks):
                x = x.w(locks=tuple(l for l in x.locks if l[1] not in ids))
            ys = [x]
            for d in reversed(dv):
                c = self.p.classes.get(d['tq'])
                if c and '&' not in d.get('t', '') and '*' not in d.get('t', '') and 'ptr' not in d.get('t', ''):
                    ys2 = []
                    for y in ys:
                        if d['id'] in y.env:
                            ys2 += self.emit(Ev('dtor', d, name=d['tq'], base=y.env.get(d['id']), func=self.stack[-1]), y)
                        else:
                            ys2.append(y)
                    ys = ys2
            r += ys
        return r

    def x_decl(self, n, sts):
        o = self.out()
        for d in n['d']:
            nxt = []
            for st in sts:
                nxt += self.declare(d, st)
            sts = dedupe(nxt)
        o['n'] = sts
        return o

    def declare(self, d, st):
        t = d.get('t', '')
        if '&' in t:
            self.refids.add(d['id'])
        short = t.replace('const ', '')
        if any(x in short.split('<')[0] for x in LOCK_TYPES) and '&' not in t:
            return self.lock_decl(d, st)
        if d.get('bind'):
            r = []
            for st2, v in (self.ev(d['i'], st) if d.get('i') else [(st, None)]):
                for i, b in enumerate(d['bind']):
                    st2 = st2.bind(b['id'], ('X', v, ('L', 'int', str(i))) if v else ('V', b['id'], b['n']))
                r.append(st2)
            return r
        if not d.get('i'):
            V = ('V', d['id'], d['n'])
            st = self.forget(st, V)
            st = st.bind(d['id'], V)
            if smart(d.get('tq')) and not d.get('st'):
                st = st.w(facts=dict(st.facts) | {V: False})
            return self.emit(Ev('decl', d, name=d['n'], lhs=V, func=self.stack[-1]), st)
        r = []
        for st2, v in self.ev(d['i'], st):
            val = self.store_term(d, v)
            st2 = st2.bind(d['id'], val)
            if val[0] == 'V' and val[1] == d['id'] and v is not None and v[0] == 'K' and (smart(d.get('tq')) or smart(v[1])):
                st2 = st2.w(facts=dict(self.forget(st2, val).facts) | {val: False})
            r += self.emit(Ev('decl', d, name=d['n'], lhs=('V', d['id'], d['n']), rhs=v, func=self.stack[-1]), st2)
        return r

    def forget(self, st, V):
        f2 = {t: v for t, v in st.facts.items() if not mentions(t, lambda y: y[:2] == V[:2])}
        return st if len(f2) == len(st.facts) else st.w(facts=f2)

    def store_term(self, d, v):
        """value bound to a freshly declared local"""
        if v is None:
            return ('V', d['id'], d['n'])
        if v[0] == 'K' and not v[2]:
            return ('V', d['id'], d['n'])
        return v

    def lock_decl(self, d, st):
        init = d.get('i')
        args = init.get('a', []) if init and init['k'] in ('ctor', 'init') else ([init] if init else [])
        cur = [(st, [])]
        for a in args:
            nxt = []
            for s2, ts in cur:
                for s3, t in self.ev(a, s2):
                    nxt.append((s3, ts + [t]))
            cur = nxt
        r = []
        for s2, ts in cur:
            mode = 'held'
            mx = []
            for t in ts:
                if t is None:
                    continue
                nm = tshow(t)
                if 'defer_lock' in nm:
                    mode = 'deferred'
                elif 'try_to_lock' in nm:
                    mode = 'try'
                elif 'adopt_lock' in nm:
                    mode = 'held'
                else:
                    mx.append(t)
            shared = 'shared_lock' in d['t']
            s2 = s2.bind(d['id'], ('lockv', d['id'], tuple(mx)))
            if mode == 'held':
                s2 = self.acquire_all([(m, d['id']) for m in mx], s2, d, shared)
            elif mode == 'try':
                s2 = s2
            r.append(s2)
        return r

    def acquire(self, m, vid, st, node, shared=False):
        for x in self.emit(Ev('lock', node, base=m, func=self.stack[-1], extra=shared), st):
            st = x
        return st.w(locks=st.locks + ((m, vid, 's' if shared else 'x'),))

    def acquire_all(self, ms, st, node, shared=False):
        """several mutexes locked by one deadlock-avoiding operation"""
        for m, vid in ms:
            for x in self.emit(Ev('lock', node, base=m, func=self.stack[-1], extra=shared), st):
                st = x
        return st.w(locks=st.locks + tuple((m, vid, 's' if shared else 'x') for m, vid in ms))

    def release(self, m, vid, st, node):
        ls = list(st.locks)
        for i in range(len(ls) - 1, -1, -1):
            if (vid is not None and ls[i][1] == vid) or (vid is None and ls[i][0] == m):
                m = ls[i][0]
                del ls[i]
                break
        st = st.w(locks=tuple(ls))
        for x in self.emit(Ev('unlock', node, base=m, func=self.stack[-1]), st):
            st = x
        return st

    def x_if(self, n, sts):
        o = self.out()
        if n.get('i'):
            sts = self.exec(n['i'], sts)['n']
        if n.get('v'):
            nxt = []
            for st in sts:
                nxt += self.declare(n['v'], st)
            sts = nxt
        T, Fs = [], []
        for st in sts:
            t, f = self.cond(n['c'], st)
            T += t; Fs += f
        a = self.exec(n['t'], self.cap(T))
        b = self.exec(n.get('f'), self.cap(Fs))
        for kk in 'nbcr':
            o[kk] = a[kk] + b[kk]
        o['n'] = self.cap(o['n'])
        ids = set()
        decls = []
        if n.get('i') and n['i']['k'] == 'decl':
            decls = n['i']['d']
            ids = {d['id'] for d in decls}
        if n.get('v'):
            ids.add(n['v']['id'])
        if ids:
            for kk in 'nbc':
                o[kk] = self.scope_end(o[kk], ids)
            o['r'] = [(y, t) for x, t in o['r'] for y in self.scope_end([x], ids)]
        return o

    def assigned_in(self, n):
        r = set()
        for x in walk(n):
            if x['k'] == 'bin' and x['op'] in ASSIGN and x['a'].get('k') == 'ref':
                r.add(x['a'].get('id'))
            elif x['k'] == 'un' and x['op'] in ('++', '--') and x['s'].get('k') == 'ref':
                r.add(x['s'].get('id'))
        return r

    def havoc(self, ids, sts, tag=''):
        if not ids:
            return sts
        r = []
        for st in sts:
            e = None
            for i in ids:
                if i in st.env:
                    if e is None:
                        e = dict(st.env)
                    old = e[i]
                    if old is not None and old[0] == 'C' and old[1] in ITER and old[2] is not None:
                        e[i] = ('elem', strip(old[2]), i)      # an iterator keeps its container
                    elif old is not None and old[0] == 'elem' and len(old) == 3:
                        pass
                    elif self.c.keep_bools and old is not None and old[0] == 'L' and old[1] == 'bool':
                        pass
                    else:
                        e[i] = ('V', i, '~' + tag)
            if e is not None:
                f = {t: v for t, v in st.facts.items() if not mentions(t, lambda y: (y[0] == 'V' and y[1] in ids) or (y[0] == 'elem' and len(y) == 3 and y[2] in ids))}
                st = st.w(env=e, facts=f)
            r.append(st)
        return dedupe(r)

    def loop(self, n, sts, pre_cond, cond, body, inc, fresh=None, rng=None):
        """generic loop: zero or more iterations until the set of states is stable"""
        o = self.out()
        ids = set()
        for x in (body, inc, cond):
            if x:
                ids |= self.assigned_in(x)
        sts = self.havoc(ids, sts, 'l%d' % n.get('l', 0))
        seen = {}
        exits = []
        broken = []
        work = sts
        for it in range(6):
            work = [x for x in dedupe(work) if x.key() not in seen]
            for x in work:
                seen[x.key()] = x
            if not work:
                break
            enter = []
            if pre_cond:
                if cond is None:
                    if fresh is None:
                        enter = work           # for(;;)
                    else:
                        enter = list(work); exits += work
                else:
                    for st in work:
                        t, f = self.cond(cond, st)
                        enter += t; exits += f
            else:
                enter = work
            if fresh:
                enter = [y for x in enter for y in fresh(x)]
            for st in list(enter):
                pass
            enter = [y for x in enter for y in self.emit(Ev('iter', n, func=self.stack[-1], extra=rng), x)]
            r = self.exec(body, self.cap(enter))
            o['r'] += r['r']
            broken += r['b']
            nx = r['n'] + r['c']
            if inc:
                nx = self.exec(inc, dedupe(nx))['n']
            if not pre_cond:
                t2 = []
                for st in dedupe(nx):
                    t, f = self.cond(cond, st)
                    t2 += t; exits += f
                nx = t2
            work = self.havoc(ids, dedupe(nx), 'l%d' % n.get('l', 0))
            work = self.cap(work)
        exits = [y for x in exits for y in self.emit(Ev('loopexit', n, func=self.stack[-1]), x)]
        exits += [y for x in broken for y in self.emit(Ev('loopexit', n, func=self.stack[-1], extra='break'), x)]
        o['n'] = self.cap(exits)
        return o

    def x_for(self, n, sts):
        ids = set()
        if n.get('i'):
            r = self.exec(n['i'], sts)
            sts = r['n']
            if n['i']['k'] == 'decl':
                ids = {d['id'] for d in n['i']['d']}
        o = self.loop(n, sts, True, n.get('c'), n.get('b'), n.get('n'))
        if ids:
            for kk in 'nbc':
                o[kk] = self.scope_end(o[kk], ids)
        return o

    def x_while(self, n, sts):
        return self.loop(n, sts, True, n.get('c'), n.get('b'), None)

    def x_do(self, n, sts):
        return self.loop(n, sts, False, n.get('c'), n.get('b'), None)

    def x_forrange(self, n, sts):
        r = []
        for st in sts:
            r += self.ev(n['r'], st)
        o = self.out()
        for st, rt in r:
            v = n['v']

            def fresh(x, v=v, rt=rt):
                el = ('elem', rt, v['id'])
                f = {t: val for t, val in x.facts.items() if not mentions(t, lambda y: y == el)}
                if len(f) != len(x.facts):
                    x = x.w(facts=f)
                if v.get('bind'):
                    for i, b in enumerate(v['bind']):
                        x = x.bind(b['id'], ('X', el, ('L', 'int', str(i))))
                return [x.bind(v['id'], el)]
            q = self.loop(n, [st], True, None, n.get('b'), None, fresh, ('range', rt))
            for kk in 'nbcr':
                o[kk] += q[kk]
        o['n'] = self.cap(o['n'])
        return o

    def x_switch(self, n, sts):
        o = self.out()
        body = n['b']['b'] if n['b'] and n['b']['k'] == 'block' else [n['b']]
        # flatten to a list of (labels, stmt)
        flat = []
        for x in body:
            labels = []
            while x and x['k'] in ('case', 'default'):
                labels.append(x)
                x = x['b']
            flat.append((labels, x))
        declared = {d['id'] for _, x in flat if x and x['k'] == 'decl' for d in x['d']}
        r = []
        for st in sts:
            r += self.ev(n['c'], st)
        hasdef = any(l['k'] == 'default' for ls, _ in flat for l in ls)
        for st, t in r:
            known = None
            allcases = [l for ls, _ in flat for l in ls if l['k'] == 'case']
            entries = []
            taken = False
            restst = st
            for i, (ls, _) in enumerate(flat):
                for l in ls:
                    if l['k'] == 'case':
                        for s2, cv in self.ev(l['v'], st):
                            tt = norm(('B', '==', t, cv))
                            y = self.assume(tt, True, s2, l)
                            if y is not None:
                                entries.append((i, y))
                            if restst is not None:
                                restst = self.assume(tt, False, restst, l)
            for i, (ls, _) in enumerate(flat):
                if any(l['k'] == 'default' for l in ls) and restst is not None:
                    entries.append((i, restst))
            if not hasdef and restst is not None:
                o['n'].append(restst)
            for i, y in entries:
                cur = [y]
                for j in range(i, len(flat)):
                    if not cur:
                        break
                    q = self.exec(flat[j][1], cur)
                    o['n'] += q['b']; o['c'] += q['c']; o['r'] += q['r']
                    cur = q['n']
                o['n'] += cur
        o['n'] = self.cap(o['n'])
        if declared:
            for kk in 'nbc':
                o[kk] = self.scope_end(o[kk], declared)
        return o

    def x_case(self, n, sts):
        return self.exec(n['b'], sts)
    x_default = x_case

    def x_label(self, n, sts):
        return self.exec(n.get('b'), sts)

    def x_return(self, n, sts):
        o = self.out()
        if n.get('e') is None:
            o['r'] = [(x, None) for x in sts]
        else:
            for st in sts:
                o['r'] += self.ev(n['e'], st)
        o['r'] = [(y, t) for x, t in o['r'] for y in self.emit(Ev('return', n, rhs=t, func=self.stack[-1]), x)] if len(self.stack) == 1 or True else o['r']
        o['r'] = self.dd(o['r'])
        return o

    @staticmethod
    def dd(l):
        seen = {}
        for x, t in l:
            seen.setdefault((x.key(), t), (x, t))
        return list(seen.values())

    def x_break(self, n, sts):
        o = self.out(); o['b'] = sts
        return o

    def x_continue(self, n, sts):
        o = self.out(); o['c'] = sts
        return o

    def x_null(self, n, sts):
        o = self.out(); o['n'] = sts
        return o

    def x_throw(self, n, sts):
        o = self.out()
        for st in sts:
            if n.get('e') is not None:
                for s2, t in self.ev(n['e'], st):
                    for y in self.emit(Ev('throw', n, name=n.get('t'), rhs=t, func=self.stack[-1]), s2):
                        self.exc[-1].append((y, n.get('t', '*'), n))
            else:
                cur = self.rethrow[-1] if getattr(self, 'rethrow', None) else '*'
                for y in self.emit(Ev('throw', n, name=cur, func=self.stack[-1]), st):
                    self.exc[-1].append((y, cur, n))
        return o

    def x_try(self, n, sts):
        o = self.out()
        self.exc.append([])
        r = self.exec(n['b'], sts)
        thrown = self.exc.pop()
        for kk in 'nbcr':
            o[kk] += r[kk]
        thrown = self.dd3(thrown)
        if not hasattr(self, 'rethrow'):
            self.rethrow = []
        perh = {}
        for st, ty, node in thrown:
            rest = True
            for hi, h in enumerate(n['h']):
                m = self.catches(h['t'], ty)
                if m:
                    perh.setdefault((hi, ty), []).append(st)
                if m == 'must':
                    rest = False
                    break
            if rest:
                self.exc[-1].append((st, ty, node))
        for (hi, ty), ss in perh.items():
            h = n['h'][hi]
            self.rethrow.append(ty if h['t'] == '...' or ty != '*' else h['t'])
            ss = [y for x in dedupe(ss) for y in self.emit(Ev('catch', h, name=h['t'], rhs=('exc', ty), func=self.stack[-1]), x)]
            q = self.exec(h['b'], ss)
            self.rethrow.pop()
            for kk in 'nbcr':
                o[kk] += q[kk]
        o['n'] = self.cap(o['n'])
        return o

    @staticmethod
    def dd3(l):
        seen = {}
        for x in l:
            seen.setdefault((x[0].key(), x[1]), x)
        return list(seen.values())

    def catches(self, ht, ty):
        if ht == '...':
            return 'must'
        h = exname(ht)
        if ty == '*':
            return 'may'
        t = exname(ty)
        if h == t:
            return 'must'
        if h == 'std::exception' or h == 'exception':
            return 'must' if t not in ('int', 'boost::exception', FOREIGN) else None
        # repository exception hierarchy
        c = self.p.exc_bases(t)
        if h in c or any(h.split('::')[-1] == x.split('::')[-1] and ('::' not in h or '::' not in x) for x in c):
            return 'must'
        if h.split('::')[-1] == t.split('::')[-1] and ('::' not in h or '::' not in t):
            return 'must'
        return None

    # ------------------------------------------------------------ conditions
    def assume(self, t, truth, st, node):
        """adds the fact; None if contradictory"""
        if t is None:
            return st
        if t[0] == 'U' and t[1] == '!':
            return self.assume(t[2], not truth, st, node)
        if t[0] == 'L':
            v = litbool(t)
            if v is not None and v != truth:
                return None
            return st
        known = lookup(t, st.facts)
        if known is not None:
            if known != truth:
                return None
        y = self.c.branch(t, truth, st, node, self.stack[-1])
        if y is None:
            return None
        if known is None and storable(t):
            f = dict(y.facts); f[t] = truth
            y = y.w(facts=f)
        return y

    def cond(self, n, st):
        """-> (states where true, states where false)"""
        k = n['k']
        if k == 'un' and n['op'] == '!':
            t, f = self.cond(n['s'], st)
            return f, t
        if k == 'bin' and n['op'] in ('&&', 'and'):
            T, Fs = [], []
            t, f = self.cond(n['a'], st)
            Fs += f
            for x in dedupe(t):
                t2, f2 = self.cond(n['b'], x)
                T += t2; Fs += f2
            return T, Fs
        if k == 'bin' and n['op'] in ('||', 'or'):
            T, Fs = [], []
            t, f = self.cond(n['a'], st)
            T += t
            for x in dedupe(f):
                t2, f2 = self.cond(n['b'], x)
                T += t2; Fs += f2
            return T, Fs
        if k == 'ref' and n.get('rk') == 'local' and st.env.get(n.get('id')) is not None:
            pass
        T, Fs = [], []
        for x, t in self.ev(n, st):
            t, truth = norm_flip(t)
            self.split(t, truth, x, n, T, Fs)
        return T, Fs

    def split(self, t, truth, x, n, T, Fs):
        """truth: polarity of t w.r.t. the condition"""
        if t is not None and t[0] == 'B' and t[1] in ('&&', '||'):
            # a boolean computed earlier and stored in a variable
            a, b = t[2], t[3]
            TT, FF = [], []
            TA, FA = [], []
            na, pa = norm_flip(a)
            self.split(na, pa, x, n, TA, FA)
            nb, pb = norm_flip(b)
            if t[1] == '&&':
                FF += FA
                for y in TA:
                    self.split(nb, pb, y, n, TT, FF)
            else:
                TT += TA
                for y in FA:
                    self.split(nb, pb, y, n, TT, FF)
            if truth:
                T += TT; Fs += FF
            else:
                T += FF; Fs += TT
            return
        y = self.assume(t, truth, x, n)
        if y is not None:
            T.append(y)
        y = self.assume(t, not truth, x, n)
        if y is not None:
            Fs.append(y)

    # ------------------------------------------------------------ events
    def emit(self, ev, st):
        r = self.c.event(ev, st)
        return [st] if r is None else r

    def kill(self, st, lhs):
        """an assignment to lhs invalidates facts and value aliases"""
        if lhs is None:
            return st
        if lhs[0] == 'F':
            f = lhs[2]
            pred = lambda y: (y[0] == 'F' and y[2] == f) or y[0] == 'C'
        elif lhs[0] in ('V', 'P'):
            pred = lambda y: y[:2] == lhs[:2]
        else:
            pred = lambda y: y == lhs or y[0] == 'C'
        f2 = {t: v for t, v in st.facts.items() if not mentions(t, pred)}
        if len(f2) != len(st.facts):
            st = st.w(facts=f2)
        return st

    # ------------------------------------------------------------ expressions
    def ev(self, n, st):
        """-> [(St, term)]"""
        if n is None:
            return [(st, None)]
        k = n['k']
        m = getattr(self, 'e_' + k, None)
        if m:
            return m(n, st)
        # generic: evaluate children
        cur = [(st, [])]
        for x in kids(n):
            cur = [(s3, ts + [t]) for s2, ts in cur for s3, t in self.ev(x, s2)]
        return [(s2, ('K', k, tuple(ts))) for s2, ts in cur]

    def evs(self, ns, st):
        cur = [(st, ())]
        for x in ns:
            cur = [(s3, ts + (t,)) for s2, ts in cur for s3, t in self.ev(x, s2)]
        return cur

    def e_block(self, n, st):
        return [(x, None) for x in self.exec(n, [st])['n']]

    def e_this(self, n, st):
        return [(st, st.env.get('this', THIS))]

    def e_lit(self, n, st):
        return [(st, ('L', n.get('lt'), n.get('v')))]

    def e_defarg(self, n, st):
        return [(st, ('L', 'defarg', '?'))]

    def e_sizeof(self, n, st):
        return [(st, ('L', 'sizeof', '?'))]

    def e_ref(self, n, st):
        rk = n.get('rk')
        if rk in ('param', 'local') and n.get('id') is not None:
            t = st.env.get(n['id'])
            if t is None:
                t = ('V', n['id'], n['n'])
            if n.get('sl'):
                return [(x, t) for x in self.emit(Ev('gread', n, lhs=t, func=self.stack[-1]), st)]
            return [(st, t)]
        if rk == 'enum':
            return [(st, ('E', n['q']))]
        if rk == 'func':
            return [(st, ('G', n['q']))]
        t = ('G', n.get('q') or n['n'])
        return [(x, t) for x in self.emit(Ev('gread', n, lhs=t, func=self.stack[-1]), st)] if rk in ('global', 'sfield') else [(st, t)]

    def e_member(self, n, st):
        r = []
        for s2, b in self.ev(n.get('b'), st) if n.get('b') else [(st, THIS)]:
            if n.get('st'):
                r.append((s2, ('G', (n.get('o') or '') + '::' + n['n'])))
            else:
                b = strip(b)
                r += self.emit_read(n, s2, ('F', b, n['n']))
        return r

    def emit_read(self, n, st, t):
        if n.get('fn'):
            return [(st, t)]
        return [(x, t) for x in self.emit(Ev('read', n, lhs=t, func=self.stack[-1]), st)]

    def e_deref(self, n, st):
        return [(s2, ('D', t)) if not (t and t[0] == 'A') else (s2, t[1]) for s2, t in self.ev(n['s'], st)]

    def e_cast(self, n, st):
        r = []
        for s2, t in self.ev(n['s'], st):
            if n.get('ck') in ('dynamic', 'static', 'const', 'c', 'func', 'reinterpret', 'cast'):
                r += [(x, t) for x in self.emit(Ev('cast', n, rhs=t, func=self.stack[-1]), s2)]
            else:
                r.append((s2, t))
        return r

    def e_cond(self, n, st):
        T, Fs = self.cond(n['c'], st)
        r = []
        for x in dedupe(T):
            r += self.ev(n['a'], x)
        for x in dedupe(Fs):
            r += self.ev(n['b'], x)
        return self.dd(r)

    def e_sub(self, n, st):
        return [(s3, ('X', strip(b), x)) for s2, b in self.ev(n['b'], st) for s3, x in self.ev(n['x'], s2)]

    def e_ctor(self, n, st):
        if n.get('cm') in ('copy', 'move') and len(n['a']) == 1:
            return [(s2, t) for s2, t in self.ev(n['a'][0], st)]
        r = []
        for s2, ts in self.evs(n['a'], st):
            t = n.get('t', '')
            e = Ev('new' if False else 'ctor', n, name=t, q=n.get('q'), args=ts, func=self.stack[-1])
            for x in self.emit(e, s2):
                # conversion of a pointer/value into a smart pointer or std::function keeps identity
                if len(ts) == 1 and ts[0] is not None and is_handle(t):
                    r.append((x, ts[0]))
                else:
                    r.append((x, ('K', t, ts)))
        return r

    def e_init(self, n, st):
        return [(s2, ts[0] if len(ts) == 1 else ('K', 'init', ts)) for s2, ts in self.evs(n['a'], st)]

    def e_new(self, n, st):
        r = []
        for s2, ts in self.evs(n['a'], st):
            for x in self.emit(Ev('new', n, name=n['t'], args=ts, func=self.stack[-1]), s2):
                r.append((x, ('N', n['t'], ts)))
        return r

    def e_delete(self, n, st):
        return [(x, None) for s2, t in self.ev(n['s'], st) for x in self.emit(Ev('delete', n, base=t, func=self.stack[-1]), s2)]

    def e_throw(self, n, st):
        self.x_throw(n, [st])
        return []

    def e_lambda(self, n, st):
        # the closure's parameters and captures share ids with the enclosing scope
        for c in n.get('c', []):
            if isinstance(c.get('i'), dict) and c.get('id') is not None:
                rs = self.ev(c['i'], st)
                if rs:
                    st = rs[0][0].bind(c['id'], rs[0][1])
        key = ('lam', id(n))
        self.lams = getattr(self, 'lams', {})
        self.lams[key] = n
        return [(x, key) for x in self.emit(Ev('lambda', n, func=self.stack[-1]), st)]

    def e_un(self, n, st):
        op = n['op']
        r = []
        for s2, t in self.ev(n['s'], st):
            if op == '&':
                r.append((s2, t[1] if t and t[0] == 'D' else ('A', t)))
            elif op in ('++', '--'):
                one = ('L', 'int', '1')
                new = ('B', '+' if op == '++' else '-', t, one)
                r += [(x, t if n.get('post') else new) for x in self.assign(n, n['s'], t, new, op, s2)]
            elif op == '+':
                r.append((s2, t))
            elif op == '!':
                r.append((s2, neg(t)))
            else:
                r.append((s2, ('U', op, t)))
        return r

    def assign(self, node, lhsnode, lhs, rhs, op, st):
        st = self.kill(st, lhs)
        if lhsnode.get('k') == 'ref' and lhsnode.get('id') is not None and lhsnode.get('rk') in ('local', 'param'):
            cur = st.env.get(lhsnode['id'])
            isref = '&' in (lhsnode.get('t') or '') or lhsnode['id'] in self.refids
            if not (isref and cur is not None and (cur[0] in ('F', 'D', 'X', 'P', 'elem') or cur[0] == 'C' and cur[1] in SLOT)):
                val = rhs if op == '=' and rhs is not None else ('V', lhsnode['id'], '~%d' % node.get('l', 0))
                if op in ('+=', '-=', '|=') and cur is not None and rhs is not None and cur[0] in ('C', 'L', 'F', 'B', 'P') and sum(1 for _ in subterms(cur)) < 24:
                    val = ('B', op[0], cur, rhs)
                if op in ('++', '--') and cur is not None and (cur[0] == 'elem' and len(cur) == 3 or cur[0] == 'C' and cur[1] in ITER and cur[2] is not None):
                    # a stepped iterator denotes another element of the same container
                    el = cur if cur[0] == 'elem' else ('elem', strip(cur[2]), lhsnode['id'])
                    f2 = {t: v for t, v in st.facts.items() if not mentions(t, lambda y: y == el)}
                    if len(f2) != len(st.facts):
                        st = st.w(facts=f2)
                    val = el
                if val is not None and mentions(val, lambda y: y[0] == 'V' and y[1] == lhsnode['id']):
                    val = ('V', lhsnode['id'], '~%d' % node.get('l', 0))
                ev = Ev('assign', node, lhs=('V', lhsnode['id'], lhsnode['n']), rhs=rhs, op=op, func=self.stack[-1])
                r = self.emit(ev, st)
                return [x.bind(lhsnode['id'], val) for x in r]
        # a value copied into a local before the store is no longer what the path denotes
        ev = Ev('assign', node, lhs=lhs, rhs=rhs, op=op, func=self.stack[-1])
        return self.emit(ev, st)

    def e_bin(self, n, st):
        op = n['op']
        if op in ('&&', '||', 'and', 'or') and not n.get('ov'):
            if n['b'] is not None and not self.interesting(n['b']):
                r = []
                for s2, a in self.ev(n['a'], st):
                    for s3, b in self.ev(n['b'], s2):
                        r.append((s3, ('B', {'and': '&&', 'or': '||'}.get(op, op), a, b)))
                return r
            T, Fs = self.cond(n, st)
            return [(x, ('L', 'bool', 'true')) for x in dedupe(T)] + [(x, ('L', 'bool', 'false')) for x in dedupe(Fs)]
        if op in ASSIGN:
            r = []
            for s2, b in self.ev(n['b'], st):
                for s3, a in self.ev_lhs(n['a'], s2):
                    an = n['a']
                    loc = an.get('id') if an['k'] == 'ref' and an.get('rk') in ('local', 'param') and an.get('id') not in self.refids else None
                    r += [(x, x.env.get(loc, a) if loc is not None else a) for x in self.assign(n, n['a'], a, b, op, s3)]
            return r
        r = []
        for s2, a in self.ev(n['a'], st):
            for s3, b in self.ev(n['b'], s2):
                if n.get('ov') and op in ('<<', '>>'):
                    for x in self.emit(Ev('shift', n, lhs=a, rhs=b, op=op, func=self.stack[-1]), s3):
                        r.append((x, ('B', op, a, b)))
                elif op == ',':
                    r.append((s3, b))
                else:
                    r += [(x, ('B', op, a, b)) for x in self.emit(Ev('bin', n, lhs=a, rhs=b, op=op, func=self.stack[-1]), s3)]
        return r

    def ev_lhs(self, n, st):
        """evaluate an assignment target without reporting a read of it"""
        if n['k'] == 'member' and not n.get('fn'):
            r = []
            for s2, b in self.ev(n.get('b'), st) if n.get('b') else [(st, THIS)]:
                if n.get('st'):
                    r.append((s2, ('G', (n.get('o') or '') + '::' + n['n'])))
                else:
                    r.append((s2, ('F', strip(b), n['n'])))
            return r
        return self.ev(n, st)

    def interesting(self, n):
        """does evaluating n possibly have effects the client cares about"""
        for x in walk(n):
            if x['k'] in ('call', 'bin') and (x['k'] == 'call' or x['op'] in ASSIGN):
                return True
        return False

    # ------------------------------------------------------------ calls
    def callee(self, n, st):
        """-> [(St, kind, name, q, baseterm)]"""
        f = n['f']
        if f is None:
            return [(st, n.get('n') or '?', n.get('q'), None, None)]
        if n.get('op') == '()':
            # call of a function object
            r = []
            for s2, t in self.ev(f, st):
                r.append((s2, '()', n.get('q'), t, None))
            return r
        if f['k'] == 'member':
            r = []
            b = f.get('b')
            for s2, t in (self.ev(b, st) if b else [(st, THIS)]):
                r.append((s2, f['n'], n.get('q') or ((f.get('o') + '::' + f['n']) if f.get('o') else None), strip(t), f))
            return r
        if f['k'] == 'ref':
            if f.get('rk') in ('param', 'local'):
                t = st.env.get(f.get('id')) or ('V', f.get('id'), f['n'])
                return [(st, '()', None, t, None)]
            return [(st, f['n'], n.get('q') or f.get('q'), None, f)]
        return [(s2, '()', None, t, None) for s2, t in self.ev(f, st)]

    def e_call(self, n, st):
        r = []
        for s1, name, q, base, fn in self.callee(n, st):
            # std::unique_lock / mutex operations
            if base is not None and base[0] == 'lockv':
                r += self.lock_op(n, name, base, s1)
                continue
            # condition variables with a predicate: evaluate the predicate as the loop condition
            for s2, args in self.evs(n['a'], s1):
                r += self.call(n, name, q, base, args, s2, fn)
        return r if len(r) < 2 else self.dd(r)

    def lock_op(self, n, name, base, st):
        vid = base[1]
        held = any(l[1] == vid for l in st.locks)
        if name == 'lock':
            for m in base[2]:
                st = self.acquire(m, vid, st, n)
            return [(st, None)]
        if name in ('unlock', 'release'):
            return [(self.release(None, vid, st, n), None)]
        if name in ('try_lock', 'try_lock_for', 'owns_lock', 'conv'):
            if name == 'owns_lock' or name == 'conv':
                return [(st, ('L', 'bool', 'true' if held else 'false'))]
            st2 = st
            for m in base[2]:
                st2 = self.acquire(m, vid, st2, n)
            return [(st2, ('L', 'bool', 'true')), (st, ('L', 'bool', 'false'))]
        return [(st, None)]

    def call(self, n, name, q, base, args, st, fn):
        qq = (q or name or '')
        ti = self.c.transparent(name, q, args)
        if ti is not None and ti < len(args):
            return [(st, args[ti])]
        if (qq in TRANSPARENT_CALLS or (base is None and name in TRANSPARENT_CALLS)) and len(args) >= 1:
            return [(st, args[0])]
        if name == 'get' and base is None and len(args) == 1 and (n.get('ta') or (n.get('f') or {}).get('ta')):
            ta = (n.get('ta') or (n.get('f') or {}).get('ta'))[0]
            return [(st, ('X', args[0], ('L', 'ta', ta)))]
        if name == 'get' and base is not None and not args:
            # smart pointer (or future / tuple) access
            if not (n.get('q') or '').startswith('std::future') and not (n.get('q') or '').startswith('std::shared_future'):
                return [(x, base) for x in self.emit(Ev('call', n, name=name, q=q, base=base, args=args, func=self.stack[-1], stack=tuple(self.stack)), st)] \
                    if (n.get('q') or '').startswith('std::') and 'ptr' in (n.get('q') or '') else self.plain(n, name, q, base, args, st, fn)
        # closures
        if name in ('()', 'operator()') and base is not None and base[0] == 'lam':
            return self.inline_lambda(base, args, st)
        if qq in ('std::invoke', 'std::call_once') or name == 'call_once':
            lam = next((a for a in args if a and a[0] == 'lam'), None)
            if lam:
                return self.inline_lambda(lam, (), st)
        if qq.startswith('std::') and any(a and a[0] == 'lam' for a in args) and not (name in ('make_shared', 'async', 'thread', 'make_unique', 'bind', 'emplace_back')):
            if name in ('for_each', 'sort', 'transform', 'any_of', 'all_of', 'none_of', 'find_if', 'count_if', 'remove_if', 'partition', 'generate', 'accumulate', 'partial_sort', 'nth_element', 'stable_sort', 'max_element', 'min_element', 'erase_if'):
                lam = next(a for a in args if a and a[0] == 'lam')
                ln = self.lams[lam]
                outs = [st]
                cur = [st]
                fe = name == 'for_each' and len(args) > 1
                for _ in range(2):
                    rr = []
                    if fe:
                        cur = [y for x in cur for y in self.emit(Ev('iter', n, func=self.stack[-1], extra=('range', args[0], args[1])), x)]
                    for x in cur:
                        rr += [y for y, _t in self.inline_lambda(lam, tuple(('elem', strip(args[0][2]) if args[0] and args[0][0] == 'C' and args[0][2] else args[0], pp['id']) for pp in ln['p']), x)]
                    cur = dedupe(rr)
                    outs += cur
                if fe:
                    outs = [y for x in dedupe(outs) for y in self.emit(Ev('loopexit', n, func=self.stack[-1]), x)]
                if getattr(self.c, 'algo', False):
                    outs = [y for x in dedupe(outs) for y in self.emit(Ev('algo', n, name=name, q=q, base=base, args=args, func=self.stack[-1]), x)]
                return [(x, ('C', name, None, tuple(args))) for x in dedupe(outs)]
        if name in ('wait', 'wait_for', 'wait_until') and args and args[0] is not None and args[0][0] == 'lockv':
            return self.cv_wait(n, name, q, base, args, st, fn)
        if (qq in ('std::lock', 'boost::lock') or (name == 'lock' and base is None)) and args:
            ms = []
            for a in args:
                if a and a[0] == 'lockv':
                    ms += [(m, a[1]) for m in a[2]]
                elif a is not None:
                    ms.append((strip(a), None))
            return [(self.acquire_all(ms, st, n), None)]
        # raw mutex operations
        if name in ('lock', 'unlock', 'try_lock', 'lock_shared', 'unlock_shared') and base is not None and not args and ('mutex' in (n.get('q') or '').lower() or 'mutex' in tshow(base).lower()):
            if name.startswith('lock'):
                return [(self.acquire(base, None, st, n), None)]
            if name.startswith('unlock'):
                return [(self.release(base, None, st, n), None)]
        return self.plain(n, name, q, base, args, st, fn)

    def cv_wait(self, n, name, q, base, args, st, fn):
        ev = Ev('cvwait', n, name=name, q=q, base=base, args=args, func=self.stack[-1])
        r = []
        lam = next((a for a in args[1:] if a and a[0] == 'lam'), None)
        # facts about shared data do not survive the wait, nor do copies keep denoting it
        for x in self.emit(Ev('cvpre', n, name=name, q=q, base=base, args=args, func=self.stack[-1], extra=self), st):
            st = x
        e = {}
        for i, t in st.env.items():
            if t is not None and i not in self.refids and i != 'this' and t[0] in ('F', 'C', 'B') and mentions(t, lambda y: y[0] == 'F'):
                t = ('V', i, 'old')
            e[i] = t
        st = st.w(env=e)
        st0 = st.w(facts={t: v for t, v in st.facts.items() if not mentions(t, lambda y: y[0] in ('F', 'C'))})
        for x in self.emit(ev, st0):
            if lam is None:
                r.append((x, None) if name == 'wait' else (x, ('C', name, base, args)))
                continue
            for y, t in self.inline_lambda(lam, (), x):
                t, pol = norm_flip(t)
                T, Fs = [], []
                self.split(t, pol, y, self.lams[lam], T, Fs)
                if name == 'wait':
                    r += [(z, None) for z in T]
                else:
                    r += [(z, ('L', 'bool', 'true')) for z in T] + [(z, ('L', 'bool', 'false')) for z in Fs]
        return r

    def inline_lambda(self, lam, args, st):
        ln = self.lams[lam]
        if len(self.stack) > self.c.max_depth + 4:
            return [(st, None)]
        for i, pr in enumerate(ln['p']):
            st = st.bind(pr['id'], args[i] if i < len(args) else ('V', pr['id'], pr['n']))
        return self.body(ln['b'], [st])

    def plain(self, n, name, q, base, args, st, fn):
        ev = Ev('call', n, name=name, q=q, base=base, args=args, func=self.stack[-1], extra=fn, stack=tuple(self.stack))
        tgt = self.c.resolve(self, ev)
        if tgt is None:
            tgt = self.target(n, name, q, base, args, fn)
        if tgt is not None and tgt is not False:
            ex = self.trivial(tgt, base, args)
            if ex is not None:
                return [(x, ex) for x in self.emit(ev, st)]
            if self.c.relevant(tgt) and tgt not in self.stack and len(self.stack) < self.c.max_depth:
                return self.inline(tgt, base, args, st, ev)
        out = []
        for x in self.emit(ev, st):
            for ty in self.c.may_throw(ev, x):
                self.exc[-1].append((x, ty, n))
            if self.c.must_throw(ev, x):
                continue
            if not n.get('cst') and not (name in PURE):
                f2 = {t: v for t, v in x.facts.items() if not mentions(t, lambda y: y[0] in ('C', 'F') or (y[0] in ('V', 'P') and (y in args or y == base and name in ('reset', 'swap', 'operator='))))}
                if len(f2) != len(x.facts):
                    x = x.w(facts=f2)
            out.append((x, ('C', name, base, args)))
        return out

    def target(self, n, name, q, base, args, fn):
        """the unique written function a call resolves to"""
        p = self.p
        nargs = len(args)
        cands = []
        if fn is not None and fn.get('k') == 'member' and (base == THIS) and not fn.get('qual'):
            cls = self.root_cls or self.stack[0].cls
            if cls:
                cands = p.method(cls, name)
            if not cands and self.stack[-1].cls:
                cands = p.method(self.stack[-1].cls, name)
        if fn is not None and fn.get('k') == 'member' and base == THIS and fn.get('qual') and '<' in (fn.get('q') or '') and self.stack[-1].cls:
            # Base<T>::f() in a template: the call is dependent, the base is not
            qs = strip_targs(fn['q'])
            qs = [x for x in qs.split('::') if x]
            for b in [self.stack[-1].cls] + p.bases_of(self.stack[-1].cls):
                if qs and b.split('::')[-1] == qs[-1]:
                    cands = [f for f in p.method(b, name)]
                    break
        if not cands and q:
            cands = p.byq.get(q, [])
            if not cands and '::' in q:
                cq, nm = q.rsplit('::', 1)
                if cq in p.classes:
                    cands = p.method(cq, nm)
        if not cands and base == THIS and self.stack[-1].cls:
            cands = p.method(self.stack[-1].cls, name)
        return pick(cands, n, nargs)

    def trivial(self, f, base, args):
        """value of a call to an accessor: a function whose body is one pure return"""
        b = f.body
        if not b or b['k'] != 'block' or len(b['b']) != 1 or not b['b'][0] or b['b'][0]['k'] != 'return':
            return None
        e = b['b'][0].get('e')
        if e is None or f.d.get('virt'):
            if e is None:
                return None
        return triv_term(e, f, base, args)

    def inline(self, f, base, args, st, ev):
        self.nfuncs.add(f.key)
        saved = st.env.get('this')
        e = dict(st.env)
        if base is not None:
            e['this'] = base
        hasval = {}
        for i, pr in enumerate(f.params):
            e[pr['id']] = args[i] if i < len(args) and args[i] is not None and not (args[i][0] == 'L' and args[i][1] == 'defarg') else ('V', pr['id'], pr['n'])
        self.stack.append(f)
        mark = len(self.exc[-1])
        sts = self.emit(Ev('enter', ev.node, name=f.n, q=f.q, base=base, args=args, func=f), st.w(env=e))
        r = self.body(f.body, sts)
        self.stack.pop()

        def restore(x):
            e2 = dict(x.env)
            if saved is None:
                e2.pop('this', None)
            else:
                e2['this'] = saved
            # locals of the callee are dead
            for pr in f.params:
                e2.pop(pr['id'], None)
            for i in local_ids(f):
                e2.pop(i, None)
            return x.w(env=e2)
        ex = self.exc[-1]
        ex[mark:] = [(restore(x),) + tuple(rest) for x, *rest in ex[mark:]]
        r = [(restore(x), t) for x, t in r]
        r = [(y, t) for x, t in r for y in self.emit(Ev('exit', ev.node, name=f.n, q=f.q, base=base, args=args, func=self.stack[-1]), x)]
        return self.dd(r)


_lid = {}


def local_ids(f):
    r = _lid.get(f.key)
    if r is None:
        r = set()
        for x in walk(f.body):
            if x['k'] == 'decl':
                for d in x['d']:
                    r.add(d['id'])
                    for b in d.get('bind', []) or []:
                        r.add(b['id'])
            elif x['k'] == 'forrange':
                r.add(x['v']['id'])
        _lid[f.key] = r
    return r


ITER = {'begin', 'cbegin', 'rbegin', 'crbegin', 'end', 'cend', 'rend', 'crend', 'find', 'lower_bound', 'erase', 'insert'}
ASSIGN = {'=', '+=', '-=', '*=', '/=', '%=', '<<=', '>>=', '&=', '|=', '^='}
PURE = {'size', 'empty', 'load', 'get', 'begin', 'end', 'at', 'front', 'back', 'what', 'find', 'count', 'capacity', 'max_size', 'str', 'c_str'}


def strip(t):
    """receiver position: pointers, references and smart pointers denote their object"""
    while t is not None and t[0] in ('D', 'A'):
        t = t[1]
    return t


def stripall(t):
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] in ('D', 'A'):
        return stripall(t[1])
    return tuple(stripall(x) if isinstance(x, tuple) else x for x in t)


def is_handle(t):
    t = t.replace('const ', '').strip()
    return t.startswith(('std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr', 'std::function', 'shared_ptr', 'unique_ptr')) or t.endswith('*')


def smart(t):
    """a smart pointer type (null when default-constructed)"""
    t = (t or '').replace('const ', '').replace('typename ', '').strip()
    return t.split('<')[0] in ('std::shared_ptr', 'std::unique_ptr', 'boost::shared_ptr') or t.endswith('_PTR')


FOREIGN = '<a type unrelated to the standard hierarchy>'


def exname(t):
    t = t.replace('const ', '').replace('&', '').replace('struct ', '').replace('class ', '').strip()
    return t


def litbool(t):
    if t[0] == 'L':
        if t[1] == 'bool':
            return t[2] == 'true'
        if t[1] == 'int':
            try:
                return int(t[2]) != 0
            except ValueError:
                return None
        if t[1] == 'null':
            return False
    return None


def neg(t):
    if t is None:
        return None
    if t[0] == 'U' and t[1] == '!':
        return t[2]
    if t[0] == 'L':
        v = litbool(t)
        if v is not None:
            return ('L', 'bool', 'false' if v else 'true')
    return ('U', '!', t)


NULLS = (('L', 'null', 'nullptr'), ('L', 'int', '0'), ('L', 'bool', 'false'))


def norm(t):
    return norm_flip(t)[0]


def norm_flip(t):
    """canonical condition term and polarity"""
    pol = True
    while True:
        if t is None:
            return None, pol
        t = stripall(t)
        if t[0] == 'U' and t[1] == '!':
            t = t[2]; pol = not pol
            continue
        if t[0] == 'C' and t[1] == 'conv' and t[2] is not None:
            t = t[2]
            continue
        if t[0] == 'K' and t[1] == 'bool' and len(t[2]) == 1:
            t = t[2][0]
            continue
        if t[0] == 'B':
            op, a, b = t[1], t[2], t[3]
            if op == '!=':
                t = ('B', '==', a, b); pol = not pol
                continue
            if op == '>':
                t = ('B', '<', b, a)
                continue
            if op == '<=':
                t = ('B', '<', b, a); pol = not pol
                continue
            if op == '>=':
                t = ('B', '<', a, b); pol = not pol
                continue
            if op == '==':
                if a in NULLS or a == ('L', 'bool', 'true'):
                    a, b = b, a
                if b == ('L', 'bool', 'true'):
                    t = a
                    continue
                if b == ('L', 'bool', 'false') or b == ('L', 'null', 'nullptr'):
                    t = a; pol = not pol
                    continue
                if b == ('L', 'int', '0') and a is not None and a[0] == 'C' and a[1] in ('size', 'length'):
                    t = ('C', 'empty', a[2], ())
                    continue
                if repr(b) < repr(a) and not (b[0] in ('L', 'E')):
                    a, b = b, a
                if a[0] in ('L', 'E') and b[0] not in ('L', 'E'):
                    a, b = b, a
                if a == b:
                    return ('L', 'bool', 'true'), pol
                if a[0] in ('L', 'E') and b[0] == a[0] and a != b:
                    return ('L', 'bool', 'false'), pol
                return ('B', '==', a, b), pol
            if op == '<':
                if a == ('L', 'int', '0') and b is not None and b[0] == 'C' and b[1] in ('size', 'length'):
                    t = ('C', 'empty', b[2], ()); pol = not pol
                    continue
                return ('B', '<', a, b), pol
        return t, pol


def lookup(t, facts):
    if t in facts:
        return facts[t]
    if t[0] == 'B' and t[1] == '==' and t[3] is not None and t[3][0] in ('L', 'E'):
        for f, v in facts.items():
            if v and f[0] == 'B' and f[1] == '==' and f[2] == t[2] and f[3] is not None and f[3][0] in ('L', 'E') and f[3] != t[3]:
                return False
    return None


def storable(t):
    # facts may involve locals, parameters, fields, and const accessors
    for x in subterms(t):
        if x[0] in ('K', 'N', 'lam'):
            return False
    return True


def pick(cands, n, nargs):
    if not cands:
        return None
    ok = []
    for f in cands:
        lo = sum(1 for p in f.params if not p.get('da'))
        if nargs <= len(f.params) and nargs >= min(lo, len(f.params)):
            ok.append(f)
        elif len(f.params) == nargs:
            ok.append(f)
    if not ok:
        # default arguments are written on the declaration only
        ok = [f for f in cands if len(f.params) >= nargs]
    if len(ok) > 1 and n.get('sg'):
        e = [f for f in ok if f.sig == n['sg']]
        if e:
            ok = e
    if len(ok) > 1:
        e = [f for f in ok if len(f.params) == nargs]
        if e:
            ok = e
    if len(ok) == 1:
        return ok[0]
    return None


def triv_term(e, f, base, args):
    """term of a pure accessor expression, or None"""
    k = e['k']
    if k == 'this':
        return base if base is not None else THIS
    if k == 'lit':
        return ('L', e.get('lt'), e.get('v'))
    if k == 'ref':
        if e.get('rk') == 'param':
            for i, p in enumerate(f.params):
                if p['id'] == e['id']:
                    return args[i] if i < len(args) else None
            return None
        if e.get('rk') == 'enum':
            return ('E', e['q'])
        return None
    if k == 'member' and not e.get('fn') and not e.get('st'):
        b = triv_term(e['b'], f, base, args) if e.get('b') else base
        return ('F', strip(b), e['n']) if b is not None else None
    if k == 'deref':
        b = triv_term(e['s'], f, base, args)
        return ('D', b) if b is not None else None
    if k == 'cast':
        return triv_term(e['s'], f, base, args)
    if k == 'un' and e['op'] == '!':
        b = triv_term(e['s'], f, base, args)
        return neg(b) if b is not None else None
    if k == 'un' and e['op'] == '&':
        b = triv_term(e['s'], f, base, args)
        return ('A', b) if b is not None else None
    if k == 'bin' and e['op'] in ('==', '!=', '<', '>', '<=', '>=', '&&', '||', '+', '-', '*', '/'):
        a = triv_term(e['a'], f, base, args)
        b = triv_term(e['b'], f, base, args)
        return ('B', e['op'], a, b) if a is not None and b is not None else None
    if k == 'ctor' and len(e.get('a', [])) == 1 and (e.get('cm') or is_handle(e.get('t', ''))):
        return triv_term(e['a'][0], f, base, args)
    if k == 'call' and e.get('f') and e['f']['k'] == 'member' and not e['a'] and e['f']['n'] in ('load', 'size', 'empty', 'get'):
        b = triv_term(e['f']['b'], f, base, args) if e['f'].get('b') else None
        return ('C', e['f']['n'], strip(b), ()) if b is not None else None
    if k == 'call' and e.get('op') == '()' and False:
        return None
    return None
