"""Lockset analysis shared by the concurrency rules."""
import json, os
from facts import walk, kids, VERIF
from flow import *
from rules.matrix import short

CONT_WRITES = {'push_back', 'push_front', 'emplace_back', 'emplace_front', 'pop_back', 'pop_front', 'insert', 'emplace', 'erase', 'clear', 'resize', 'assign', 'swap', 'reset', 'remove', 'splice', 'sort',
               'load', 'store', 'exchange', 'fetch_add', 'fetch_sub', 'compare_exchange_strong', 'join', 'join_all', 'detach', 'merge', 'unique', 'reserve', 'shrink_to_fit', 'create_thread', 'create_threads'}
SYNC = ('mutex', 'atomic', 'condition_variable', 'once_flag')


class LockClient(Client):
    max_states = 500
    max_depth = 8

    def __init__(self, prog, cls):
        self.p = prog
        self.cls = cls
        self.hier = {cls} | set(prog.bases_of(cls))
        self.acc = {}            # (field, rw, lockset) -> (loc, func)
        self.acquires = []       # (mutex term, held locks, loc, func)
        self.waits = []          # (cv term, held, loc, has predicate, in loop, func, own mutexes)
        self.calls = []          # (name, q, base, held, loc)
        self.fields = {f['n']: f for b in [cls] + prog.bases_of(cls) if b in prog.classes for f in prog.classes[b].fields}
        self.entry = None

    def relevant(self, f):
        return f.cls in self.hier and f.d.get('kind') != 'dtor'

    def event(self, ev, st):
        k = ev.kind
        held = tuple((m, md) for m, v, md in st.locks)
        if k == 'lock':
            self.acquires.append((ev.base, held, ev.loc, ev.func, ev.extra))
            # whatever was known about shared data is void
            return [st.w(facts={t: v for t, v in st.facts.items() if not mentions(t, lambda y: y[0] in ('F', 'G'))})]
        if k == 'unlock':
            return [st.w(facts={t: v for t, v in st.facts.items() if not mentions(t, lambda y: y[0] in ('F', 'G'))})]
        if k == 'cvwait':
            lam = any(a and a[0] == 'lam' for a in ev.args[1:])
            own = ev.args[0][2] if ev.args and ev.args[0] and ev.args[0][0] == 'lockv' else ()
            self.waits.append((ev.base, held, ev.loc, lam, ev.func, own, ev.name))
        if k == 'read':
            t = ev.lhs
            if t[0] == 'F' and t[1] == THIS:
                self.acc.setdefault((t[2], 'r', held), (ev.loc, ev.func))
        if k == 'assign':
            t = strip(ev.lhs)
            while t is not None and t[0] in ('X', 'F', 'elem') and not (t[0] == 'F' and t[1] == THIS):
                t = strip(t[1])
            if t is not None and t[0] == 'F' and t[1] == THIS:
                self.acc.setdefault((t[2], 'w', held), (ev.loc, ev.func))
        if k == 'call':
            if ev.base is not None:
                t = strip(ev.base)
                while t is not None and t[0] in ('X', 'elem', 'F') and not (t[0] == 'F' and t[1] == THIS):
                    t = strip(t[1])
                if t is not None and t[0] == 'F' and t[1] == THIS and (ev.name in CONT_WRITES or (ev.name or '').startswith('operator')):
                    self.acc.setdefault((t[2], 'w', held), (ev.loc, ev.func))
            self.calls.append((ev.name, ev.q, ev.base, held, ev.loc, ev.func, ev.node, ev.args))
        return None


class LockInterp(Interp):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.ran = set()
        self.lams = {}

    def inline_lambda(self, lam, args, st):
        self.ran.add(lam)
        return super().inline_lambda(lam, args, st)


def entries(prog, cls, pred=None):
    """all written methods of the class"""
    for f in prog.bycls.get(cls, []):
        if f.body and f.d.get('mode') != 'inst' and (pred is None or pred(f)):
            yield f


def run_lambda(it, func, node, cl=None):
    it.exc = [[]]
    it.stack = [func]
    env = {}
    for pr in node['p']:
        env[pr['id']] = ('V', pr['id'], pr['n'])
    return it.body(node['b'], [St(env, {}, (), cl)])


def analyse_class(prog, cls, skip=lambda f: False, mk=LockClient):
    """-> {func: client}; deferred lambdas are entries of their own (key (func, node))"""
    out = {}
    called = set()
    for f in entries(prog, cls):
        if skip(f):
            continue
        c = mk(prog, cls)
        c.entry = f
        it = LockInterp(prog, c, cls)
        it.run(f, None)
        out[f] = c
        c.interp = it
        todo = [l for l in it.lams if l not in it.ran]
        done = set()
        while todo:
            l = todo.pop()
            if l in done:
                continue
            done.add(l)
            c2 = mk(prog, cls)
            c2.entry = f
            it2 = LockInterp(prog, c2, cls)
            it2.lams = dict(it.lams)
            run_lambda(it2, f, it.lams[l])
            c2.interp = it2
            out[(f, l)] = c2
            todo += [x for x in it2.lams if x not in it2.ran and x not in done and x not in it.lams]
    return out


def is_sync(f):
    t = (f.get('ct') or '') + (f.get('t') or '')
    return any(s in t for s in SYNC)


def is_mutex_field(f):
    return 'mutex' in (f.get('ct') or '').lower()


def called_internally(prog, cls, f):
    """is the (private) function called from another function of the class"""
    for g in prog.bycls.get(cls, []):
        if g is f or not g.body:
            continue
        for x in walk(g.body):
            if x['k'] == 'call' and x.get('f', {}).get('k') == 'member' and x['f']['n'] == f.n:
                b = x['f'].get('b')
                if b is None or b['k'] == 'this':
                    return True
    return False


def access_of(prog, cls, f):
    """access specifier of method f"""
    for m in prog.classes[cls].d['methods']:
        if m['n'] == f.n and m.get('l') in (f.line, f.d.get('dl')):
            return m.get('acc')
    for m in prog.classes[cls].d['methods']:
        if m['n'] == f.n:
            return m.get('acc')
    return 'public'


def _api():
    p = os.path.join(VERIF, 'spec', 'guards.json')
    return json.load(open(p)).get('api', {}) if os.path.exists(p) else {}


def is_helper(prog, cls, f):
    """a function that only runs as part of the class's own functions: analysed where it is called"""
    if f.d.get('virt') or f.d.get('kind') in ('ctor', 'dtor') or not called_internally(prog, cls, f):
        return False
    if access_of(prog, cls, f) in ('private', 'protected'):
        return True
    api = _api().get(short(cls))
    if api is None or f.n in api:
        return False
    if not hasattr(prog, '_namecallers'):
        nc = prog._namecallers = {}
        for g in prog.funcs:
            if g.body and g.d.get('mode') != 'inst':
                for x in walk(g.body):
                    if x['k'] == 'call' and (x.get('f') or {}).get('n'):
                        nc.setdefault(x['f']['n'], set()).add(g.cls)
    return prog._namecallers.get(f.n, set()) <= {cls}
