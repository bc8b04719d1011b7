"""C10-C12, C14: bounded buffer, lock discipline, deadlock freedom, condition variables, thread pool."""
import json, os
from facts import walk, kids, AnalysisBroken, VERIF
import re
from flow import *
from rules.registry import register
from rules.matrix import short
from rules.locks import *

INS = {'push_back': 'back', 'emplace_back': 'back', 'push_front': 'front', 'emplace_front': 'front'}
REM = {'pop_back': 'back', 'pop_front': 'front'}
RD = {'back', 'front'}


def root_field(t):
    t = strip(t)
    while t is not None and t[0] in ('X', 'F', 'elem', 'C') and not (t[0] == 'F' and t[1] == THIS):
        t = strip(t[2]) if t[0] == 'C' else strip(t[1])
    return t[2] if t is not None and t[0] == 'F' else None


def fatal_shift(ev):
    """streaming a terminating manipulator into the logger ends the program"""
    return ev.kind == 'shift' and ev.rhs is not None and mentions(ev.rhs, lambda y: y[0] == 'E' and y[1].endswith('::TERMINATION'))


def unlimited_only(ty):
    """the overload is only available for a capacity of 0"""
    m = re.search(r'enable_if(?:_t)?\s*<(.*)>', ty)
    if not m:
        return False
    x = m.group(1)
    for a, b in (('&&', ' and '), ('||', ' or '), ('!=', '\0'), ('!', ' not '), ('\0', '!='), ('true', 'True'), ('false', 'False'), ('(int)', ''), ('UL', ''), ('unsigned long', 'int')):
        x = x.replace(a, b)
    x = re.sub(r'\b(\d+)[uUlL]+\b', r'\1', x).strip()

    def holds(cap):
        try:
            return bool(eval(re.sub(r'\b[A-Za-z_]*capacity\b', str(cap), x), {'__builtins__': {}}))
        except Exception:
            return None
    return holds(0) is True and holds(1) is False and holds(7) is False


# ---------------------------------------------------------------------------------------------- C10
class BufClient(LockClient):
    """cl = (inserts, removals, end read since the last removal, notified cvs)"""

    def __init__(self, prog, cls, cont, mtx):
        super().__init__(prog, cls)
        self.cont = ('F', THIS, cont)
        self.mtx = mtx
        self.ins = []       # (end, held ok, room ok, loc)
        self.rem = []       # (end, held ok, nonempty ok, read end, loc)
        self.unlocked = []

    def held(self, st):
        return any(m == ('F', THIS, self.mtx) for m, v, md in st.locks)

    def room(self, st):
        size = ('C', 'size', self.cont, ())
        for t, v in st.facts.items():
            if t[0] != 'B' or not mentions(t, lambda y: y[0] == 'G' and 'capacity' in y[1].lower() or y[0] == 'C' and y[1] == 'getCapacity'):
                continue
            op, a, b = t[1], t[2], t[3]
            hasz = lambda x: mentions(x, lambda y: y == size)
            if op == '<' and a == size and v:
                return True                       # size < cap
            if op == '<' and hasz(b) and b != size and not hasz(a) and not v and b[0] == 'B' and b[1] == '+':
                return True                       # not cap < size + n
            if op == '==' and hasz(t) and not v and size in (a, b):
                return True                       # size != cap
            if op == '==' and not hasz(t) and v and ('L', 'int', '0') in (a, b):
                return True                       # unbounded
            if op == '<' and not hasz(t) and a == ('L', 'int', '0') and not v:
                return True                       # not 0 < cap
        return False

    def event(self, ev, st):
        r = super().event(ev, st)
        if r is not None:
            if ev.kind == 'lock':
                return [x.w(cl=x.cl[:3] + (frozenset(),)) for x in r]
            return r
        n, m, rd, nt = st.cl
        if ev.kind == 'read' and ev.lhs == self.cont and not self.held(st):
            self.unlocked.append((ev.loc, ev.func))
        if ev.kind == 'call':
            b = strip(ev.base) if ev.base is not None else None
            if b == self.cont:
                if ev.name in INS:
                    self.ins.append((INS[ev.name], self.held(st), self.room(st), ev.loc, ev.func))
                    return [st.w(cl=(min(n + 1, 2), m, rd, nt))]
                if ev.name in REM:
                    ne = st.facts.get(('C', 'empty', self.cont, ())) is False
                    self.rem.append((REM[ev.name], self.held(st), ne, rd, ev.loc, ev.func))
                    return [st.w(cl=(n, min(m + 1, 2), None, nt))]
                if ev.name in RD:
                    return [st.w(cl=(n, m, ev.name, nt))]
            if ev.name in ('notify_one', 'notify_all') and b is not None:
                return [st.w(cl=(n, m, rd, nt | {(tshow(b), ev.name)}))]
        return None


def bounded_buffer(prog, rep):
    classes = [q for q, c in prog.classes.items() if short(q) == 'GBoundedBufferT' and c.d.get('mode') != 'inst']
    rep.floor('bounded buffer class', len(classes), 1)
    for cls in classes:
        c = prog.classes[cls]
        mt = [f['n'] for f in c.fields if is_mutex_field(f)]
        data = [f['n'] for f in c.fields if not is_sync(f) and not f.get('st')]
        # the container is the field items are inserted into
        cont = None
        for f in entries(prog, cls):
            for x in walk(f.body):
                if x['k'] == 'call' and x.get('f', {}).get('k') == 'member' and x['f']['n'] in INS and x['f'].get('b', {}) and x['f']['b'].get('k') == 'member' and x['f']['b']['n'] in data:
                    cont = x['f']['b']['n']
        if not mt or cont is None:
            raise AnalysisBroken('bounded buffer: container or mutex not found')
        mtx = mt[0]
        res = []
        for f in entries(prog, cls):
            if f.kind in ('ctor',) if hasattr(f, 'kind') else False:
                continue
            if is_helper(prog, cls, f):
                continue
            k = BufClient(prog, cls, cont, mtx)
            it = LockInterp(prog, k, cls)
            env = {}
            out, thrown = it.run(f, (0, 0, None, frozenset()))
            res.append((f, k, out, thrown))
        pushw, popw = set(), set()
        for f, k, out, thrown in res:
            for w in k.waits:
                if k.ins:
                    pushw.add(tshow(w[0]))
                if k.rem:
                    popw.add(tshow(w[0]))
        iends = {e[0] for f, k, o, t in res for e in k.ins}
        rends = {e[0] for f, k, o, t in res for e in k.rem}
        rep.ob('%s/fifo' % short(cls), len(iends) == 1 and len(rends) == 1 and iends != rends, '%s:%d' % (c.file, c.line), 'fifo-ends',
               'items are inserted at %s and removed at %s: the buffer is not a FIFO' % (sorted(iends), sorted(rends)))
        npush = npop = 0
        for f, k, out, thrown in res:
            if f.d.get('kind') == 'dtor':
                rep.ob('%s/locked' % key(f), not k.unlocked, f.loc, 'access-under-mutex', 'container accessed without %s' % mtx)
                continue
            ky = key(f)
            unb = any(unlimited_only(p.get('t') or '') for p in f.params)
            rep.ob('%s/locked' % ky, not k.unlocked, k.unlocked[0][0] if k.unlocked else f.loc, 'access-under-mutex', 'container accessed without holding %s' % mtx)
            for e in k.ins:
                rep.ob('%s/insert-locked' % ky, e[1], e[3], 'insert-under-mutex', 'item inserted without holding %s' % mtx)
                rep.ob('%s/room' % ky, e[2] or unb, e[3], 'capacity', 'item inserted although size() < capacity is not established in the same critical section')
            for e in k.rem:
                rep.ob('%s/remove-locked' % ky, e[1], e[4], 'remove-under-mutex', 'item removed without holding %s' % mtx)
                rep.ob('%s/nonempty' % ky, e[2], e[4], 'non-empty', 'item removed although the container is not known to hold one in the same critical section')
                rep.ob('%s/item' % ky, e[3] == e[0], e[4], 'item-delivered', 'the element removed at the %s is not the element that was read (%s): an item is lost or delivered twice' % (e[0], e[3]))
            isbool = any(t is not None and t[0] == 'L' and t[1] == 'bool' for st, t in out)
            if not k.ins and not k.rem:
                continue
            npush += bool(k.ins)
            npop += bool(k.rem)
            if k.ins and k.rem:
                rep.stat('functions that insert and remove')
            kind = 0 if k.ins else 1
            what = ('inserted', 'removed')[kind]
            for st, t in out:
                cnt = st.cl[kind]
                lit = litbool(t) if t is not None else None
                if t is None or lit is True:
                    rep.ob('%s/exactly-one' % ky, cnt == 1, f.loc, 'exactly-one', '%s items %s on a path that reports success' % ('no' if cnt == 0 else 'several', what))
                elif lit is False:
                    rep.ob('%s/none' % ky, cnt == 0, f.loc, 'none-on-failure', 'an item is %s on a path that reports failure' % what)
                if cnt:
                    need = popw if kind == 0 else pushw
                    other = pushw if kind == 0 else popw
                    for cv in need:
                        ok = any(c2 == cv and (nm == 'notify_all' or cv not in other) for c2, nm in st.cl[3])
                        rep.ob('%s/wakeup' % ky, ok, f.loc, 'wakeup', 'an item is %s but the threads waiting for that (on %s) are not notified afterwards' % (what, cv))
            for w in k.waits:
                rep.ob('%s/wait' % ky, w[3] or w[6] != 'wait' or w[4], w[2], 'wait-predicate', 'wait without predicate')
        rep.floor('functions inserting into the buffer', npush, 2)
        rep.floor('functions removing from the buffer', npop, 2)
        rep.stat('insert functions', npush)
        rep.stat('remove functions', npop)
        rep.stat('methods analysed', len(res))


def key(f):
    s = f.d.get('sig') or f.sig or ''
    ov = ''
    if any('> 0' in (p.get('t') or '') for p in f.params):
        ov = '[bounded]'
    elif any('== 0' in (p.get('t') or '') for p in f.params):
        ov = '[unbounded]'
    return '%s::%s%s' % (short(f.cls), f.n, ov)


register('C10', bounded_buffer, 'lib',
         'Every path of every member function of GBoundedBufferT is interpreted abstractly (calls to own helpers and wait predicates inlined). Facts about shared data are dropped whenever a mutex is taken or released. At each insertion: mutex held and size()<capacity known (or unbounded overload / capacity==0 known). At each removal: mutex held, non-empty known, and the element read before was taken from the same end. Insert end != remove end, the same in all functions. A path reporting success (true or void) performs exactly one insertion/removal, a path reporting failure none. After an insertion (removal) the condition variable on which removers (inserters) wait is notified in or after the critical section; which variable that is follows from who waits on it.',
         'Bounded FIFO discipline of GBoundedBufferT')


# ---------------------------------------------------------------------------------------------- C11
def mutex_classes(prog):
    for q, c in sorted(prog.classes.items()):
        if c.d.get('mode') == 'inst':
            continue
        if any(is_mutex_field(f) for f in c.fields):
            yield q, c


def self_synchronised(prog, f):
    """the member's own class serialises access to it"""
    t = f.get('ct') or f.get('t') or ''
    t0 = (f.get('tq') or t.split('<')[0]).strip()
    if t0.startswith('boost::asio::io_'):
        return True
    for q, c in prog.classes.items():
        if short(q) == t0.split('::')[-1].split('<')[0] and any(is_mutex_field(g) for g in c.fields):
            return True
    return False


def entry_points(prog, cls, funcs):
    r = {}
    for k, c in funcs.items():
        f = k[0] if isinstance(k, tuple) else k
        if isinstance(k, tuple):
            r[k] = c
            continue
        if f.d.get('kind') in ('ctor', 'dtor'):
            continue
        if is_helper(prog, cls, f):
            continue
        r[k] = c
    return r


def guard_spec():
    p = os.path.join(VERIF, 'spec', 'guards.json')
    return json.load(open(p)) if os.path.exists(p) else dict(guards={}, exempt={})


def lock_tables(prog):
    """class -> (field -> [(rw, frozenset of own mutexes held, loc, function)])"""
    if hasattr(prog, '_locktab'):
        return prog._locktab
    out = {}
    for q, c in mutex_classes(prog):
        tab = {}
        derived = [d for d in prog.classes if q in prog.bases_of(d) and prog.classes[d].d.get('mode') != 'inst']
        nf = 0
        if guard_spec()['exempt'].get(short(q)) == '*':
            out[q] = ({}, 0, derived)
            continue
        own = {f['n'] for f in c.fields}
        for cls in [q] + derived:
            if cls == q:
                fs = analyse_class(prog, cls)
            else:
                # functions of derived classes which touch members of q themselves
                def mk(pr, cl, q=q):
                    k = LockClient(pr, cl)
                    k.hier = {q}
                    return k
                fs = analyse_class(prog, cls, skip=lambda f: not any(x['k'] == 'member' and x['n'] in own for x in walk(f.body)), mk=mk)
            ent = entry_points(prog, cls, fs)
            nf += len(ent)
            for k, cl in ent.items():
                for (fld, rw, held), (loc, fn) in cl.acc.items():
                    hs = frozenset(m[2] for m, md in held if m[0] == 'F' and m[1] == THIS)
                    tab.setdefault(fld, []).append((rw, hs, loc, fn))
        out[q] = (tab, nf, derived)
    prog._locktab = out
    return out


def writes_field(g, fld):
    for x in walk(g.body):
        t = None
        if x['k'] == 'bin' and x['op'] in ASSIGN:
            t = x['a']
        elif x['k'] == 'un' and x['op'] in ('++', '--'):
            t = x['s']
        if t and any(y['k'] == 'member' and y['n'] == fld for y in walk(t)):
            return True
    return False


def lock_discipline(prog, rep):
    spec = guard_spec()
    tabs = lock_tables(prog)
    ng = 0
    for q, (tab, nf, derived) in tabs.items():
        c = prog.classes[q]
        cs = short(q)
        rep.stat('classes with a mutex')
        rep.stat('entry points analysed', nf)
        fields = {f['n']: f for f in c.fields}
        mts = {f['n'] for f in c.fields if is_mutex_field(f)}
        if spec['exempt'].get(cs) == '*':
            continue
        for fld, accs in sorted(tab.items()):
            f = fields.get(fld)
            if f is None or is_sync(f) or f.get('st') or (f.get('t') or '').startswith('const ') or self_synchronised(prog, f):
                continue
            if fld in spec['exempt'].get(cs, {}):
                continue
            pinned = spec['guards'].get(cs, {}).get(fld)
            guarded = any(a[1] & mts for a in accs)
            if not guarded and not pinned:
                continue
            if not any(a[0] == 'w' for a in accs) and not pinned:
                continue
            common = None
            for a in accs:
                common = (a[1] & mts) if common is None else common & a[1]
            ng += 1
            # which mutex is meant: the one most accesses hold
            votes = {}
            for a in accs:
                for m in a[1] & mts:
                    votes[m] = votes.get(m, 0) + 1
            want = pinned if pinned in mts else (max(sorted(votes), key=lambda m: votes[m]) if votes else None)
            for rw, hs, loc, fn in accs:
                rep.ob('%s::%s@%s::%s' % (cs, fld, short(fn.cls or ''), fn.n), bool(common) or (want in hs), loc, 'guarded-by',
                       '%s of %s without holding %s, which protects it elsewhere' % ('write' if rw == 'w' else 'read', fld, want or 'a mutex'))
    # members that several threads access without a lock stay atomic
    na = 0
    for q, c in sorted(prog.classes.items()):
        cs = short(q)
        if c.d.get('mode') == 'inst' or spec['exempt'].get(cs) == '*':
            continue
        for fld in spec.get('atomics', {}).get(cs, ()):
            f = next((x for x in c.fields if x['n'] == fld), None)
            if f is None:
                continue
            na += 1
            t = (f.get('ct') or '') + ' ' + (f.get('t') or '')
            ok = any(x in t for x in ('atomic', 'mutex', 'once_flag')) or t.startswith('const ')
            if not ok:
                accs = tabs.get(q, ({},))[0].get(fld, [])
                common = None
                for a in accs:
                    common = a[1] if common is None else common & a[1]
                ok = bool(common) or not any(writes_field(g, fld) for d in [q] + prog.derived_of(q) for g in prog.bycls.get(d, []) if g.body and g.d.get('kind') not in ('ctor', 'dtor'))
            rep.ob('%s::%s/atomic' % (cs, fld), ok, '%s:%d' % (c.file, c.line), 'atomic-or-guarded', '%s is used by several threads but is neither atomic nor always protected by the same mutex' % fld)
    rep.stat('atomic data members', na)
    # function-local and global state used under a mutex
    for f in prog.funcs:
        if not f.body or f.d.get('mode') == 'inst':
            continue
        sl = {d['n']: d for x in walk(f.body) if x['k'] == 'decl' for d in x['d'] if d.get('st')}
        mx = [n for n, d in sl.items() if 'mutex' in d.get('t', '')]
        data = [n for n, d in sl.items() if 'mutex' not in d.get('t', '') and 'const' not in d.get('t', '') and 'atomic' not in d.get('t', '')]
        if not mx or not data:
            continue
        ng += len(data)
        hits = []

        class GC(Client):
            def event(self, ev, st):
                if ev.kind == 'gread' and ev.lhs[0] == 'V' and ev.lhs[2] in data:
                    hits.append((ev.lhs[2], bool(st.locks), ev.loc))
        Interp(prog, GC(), f.cls).run(f, None)
        for n, ok, loc in hits:
            rep.ob('%s::%s/%s' % (short(f.cls or ''), f.n, n), ok, loc, 'guarded-static', 'function-local static %s accessed without holding %s' % (n, '/'.join(mx)))
    rep.floor('guarded data members', ng, 8)
    rep.stat('guarded data members', ng)


register('C11', lock_discipline, 'all',
         'For every class with a mutex member: every entry point (public/virtual/otherwise called functions and every deferred lambda, which runs without the locks held where it was created) is interpreted with the set of held locks; own helpers are inlined. A data member that is accessed anywhere outside constructors/destructors while a mutex of the class is held, and written there, has to be accessed under one common mutex everywhere. The guard table spec/guards.json pins the pairs found on the reviewed tree so that dropping every lock is seen as well. Function-local statics next to a static mutex are held to the same rule.',
         'Lock discipline (guarded-by) over all mutex-owning classes')


# ---------------------------------------------------------------------------------------------- C12
def mnode(prog, f, m):
    """instance-independent name of a mutex term"""
    if m[0] == 'F' and m[1] == THIS:
        for q in [f.cls] + prog.bases_of(f.cls or ''):
            c = prog.classes.get(q)
            if c and any(x['n'] == m[2] for x in c.fields):
                return '%s::%s' % (short(q), m[2])
        return '%s::%s' % (short(f.cls or '?'), m[2])
    if m[0] == 'F':
        for q, c in prog.classes.items():
            if any(x['n'] == m[2] and is_mutex_field(x) for x in c.fields):
                return '%s::%s' % (short(q), m[2])
    if m[0] == 'V':
        return 'static %s::%s' % (short(f.cls or '') + '::' + f.n, m[2])
    return tshow(m)


def all_lock_uses(prog):
    """every function (and deferred lambda) of the program that takes a lock or is called with one held"""
    if hasattr(prog, '_lockuses'):
        return prog._lockuses
    uses = {}
    interesting = set()
    for f in prog.funcs:
        if not f.body or f.d.get('mode') == 'inst':
            continue
        t = f.d.get('_lk')
        has = False
        for x in walk(f.body):
            if x['k'] == 'decl' and any(any(l in d.get('t', '') for l in LOCK_TYPES) for d in x['d']):
                has = True
                break
            if x['k'] == 'call' and x.get('f') and x['f'].get('k') == 'member' and x['f']['n'] in ('lock', 'lock_shared', 'wait', 'wait_for', 'wait_until', 'notify_one', 'notify_all') :
                has = True
                break
        if has:
            interesting.add(f)
    for f in interesting:
        class C(LockClient):
            def __init__(s, p, cls):
                super().__init__(p, cls or '')
                s.notifies = []
                s.asg = []

            def relevant(s, g):
                return False

            def event(s, ev, st):
                if ev.kind == 'call' and ev.name in ('notify_one', 'notify_all'):
                    s.notifies.append((strip(ev.base), ev.name, ev.loc, tuple(m for m, v, md in st.locks)))
                return super().event(ev, st)
        c = C(prog, f.cls)
        it = LockInterp(prog, c, f.cls)
        it.run(f, None)
        uses[f] = c
        lams = dict(it.lams)
        todo = [l for l in it.lams if l not in it.ran]
        for l in todo:
            c2 = C(prog, f.cls)
            it2 = LockInterp(prog, c2, f.cls)
            it2.lams = dict(lams)
            run_lambda(it2, f, lams[l])
            uses[(f, l)] = c2
    prog._lockuses = uses
    return uses


def callees_static(prog, f, cache={}):
    """functions f calls directly (instantiations preferred for resolved callees), deferred lambdas excluded"""
    r = cache.get((id(prog), f.key))
    if r is not None:
        return r
    out = set()

    def scan(n, lam):
        if n is None:
            return
        if isinstance(n, list):
            for x in n:
                scan(x, lam)
            return
        if n['k'] == 'lambda' and lam:
            return
        if n['k'] == 'call':
            q = n.get('q')
            fn = n.get('f')
            if not q and fn and fn.get('k') == 'member':
                q = (fn.get('o') + '::' + fn['n']) if fn.get('o') else None
                if q is None and (fn.get('b') is None or fn['b'].get('k') == 'this') and f.cls:
                    for g in prog.method(f.cls, fn['n']):
                        out.add(g)
            if not q and fn and fn.get('k') == 'ref':
                q = fn.get('q')
            if q:
                for g in prog.byq.get(q, []):
                    out.add(g)
                if q.rsplit('::', 1)[0] in prog.classes:
                    for d in prog.derived_of(q.rsplit('::', 1)[0]) if hasattr(prog, 'derived_of') else []:
                        for g in prog.byq.get(d + '::' + q.rsplit('::', 1)[1], []):
                            out.add(g)
        for x in kids(n):
            scan(x, lam)
    scan(f.body, True)
    for i in f.inits or []:
        if i.get('e'):
            scan(i['e'], True)
    cache[(id(prog), f.key)] = out
    return out


def acquire_closure(prog):
    """function name -> {mutex node: path}"""
    uses = all_lock_uses(prog)
    direct = {}
    for k, c in uses.items():
        if isinstance(k, tuple):
            continue
        for m, held, loc, fn, ext in c.acquires:
            direct.setdefault(k.q, {}).setdefault(mnode(prog, fn, m), (loc,))
    # call graph by qualified name
    succ = {}
    for f in prog.funcs:
        if not f.body:
            continue
        s = succ.setdefault(f.q, set())
        for g in callees_static(prog, f):
            s.add(g.q)
    pred = {}
    for a, bs in succ.items():
        for b in bs:
            pred.setdefault(b, set()).add(a)
    clo = {q: dict(d) for q, d in direct.items()}
    work = list(clo)
    while work:
        q = work.pop()
        for p in pred.get(q, ()):
            d = clo.setdefault(p, {})
            ch = False
            for m, path in clo[q].items():
                if m not in d and len(path) < 12:
                    d[m] = (q,) + path
                    ch = True
            if ch:
                work.append(p)
    return clo


def resolve_held_call(prog, f, call):
    """qualified names a call made with a lock held may reach"""
    name, q, base, held, loc, func, node, args = call
    if q and q in prog.byq:
        r = [q]
        cq = q.rsplit('::', 1)[0]
        if cq in prog.classes:
            r += [d + '::' + name for d in prog.derived_of(cq) if d + '::' + name in prog.byq]
        return r
    if base is None:
        return [q] if q else []
    b = strip(base)
    if b == THIS:
        return [g.q for g in prog.method(f.cls, name)] if f.cls else []
    if b[0] == 'F' and b[1] == THIS and f.cls:
        for cq in [f.cls] + prog.bases_of(f.cls):
            c = prog.classes.get(cq)
            for x in (c.fields if c else []):
                if x['n'] == b[2]:
                    ty = (x.get('ct') or '') + ' ' + (x.get('t') or '')
                    return [g.q for q2, c2 in prog.classes.items() if c2.d.get('mode') != 'inst' and c2.n in ty.replace('<', ' ').replace('>', ' ').replace('::', ' ').split() for g in prog.method(q2, name)]
    return []


def cycles(edges):
    """strongly connected components with a cycle"""
    idx, low, st, on, out = {}, {}, [], set(), []
    g = {}
    for a, b in edges:
        g.setdefault(a, set()).add(b)
        g.setdefault(b, set())

    def dfs(v):
        idx[v] = low[v] = len(idx)
        st.append(v)
        on.add(v)
        for w in sorted(g[v]):
            if w not in idx:
                dfs(w)
                low[v] = min(low[v], low[w])
            elif w in on:
                low[v] = min(low[v], idx[w])
        if low[v] == idx[v]:
            comp = []
            while True:
                w = st.pop()
                on.discard(w)
                comp.append(w)
                if w == v:
                    break
            if len(comp) > 1 or v in g[v]:
                out.append(sorted(comp))
    for v in sorted(g):
        if v not in idx:
            dfs(v)
    return out


def pred_fields(prog, cls, node):
    """data members of this a predicate depends on (through own accessors)"""
    r = set()
    hier = [cls] + prog.bases_of(cls)
    names = {f['n'] for q in hier if q in prog.classes for f in prog.classes[q].fields}
    for x in walk(node):
        if x['k'] == 'member' and x['n'] in names and not x.get('fn'):
            r.add(x['n'])
        if x['k'] == 'call' and x.get('f') and x['f'].get('k') == 'member' and (x['f'].get('b') is None or x['f']['b'].get('k') == 'this'):
            for g in prog.method(cls, x['f']['n']):
                if g.body and g.cls in hier:
                    for y in walk(g.body):
                        if y['k'] == 'member' and y['n'] in names and not y.get('fn'):
                            r.add(y['n'])
    return r


def deadlock(prog, rep):
    uses = all_lock_uses(prog)
    clo = acquire_closure(prog)
    edges = {}
    nacq = ncalls = 0
    for k, c in sorted(uses.items(), key=lambda kv: (kv[0][0].q if isinstance(kv[0], tuple) else kv[0].q, isinstance(kv[0], tuple))):
        f = k[0] if isinstance(k, tuple) else k
        nm = '%s::%s' % (short(f.cls or ''), f.n) + ('/lambda' if isinstance(k, tuple) else '')
        for m, held, loc, fn, ext in c.acquires:
            nacq += 1
            b = mnode(prog, fn, m)
            rep.ob('%s/reacquire %s' % (nm, b), all(h != m for h, md in held), loc, 'no-self-deadlock', '%s is locked while the same thread already holds it' % b)
            for h, md in held:
                if h != m:
                    edges.setdefault((mnode(prog, fn, h), b), loc)
        seen = set()
        for call in c.calls:
            if not call[3]:
                continue
            for q in resolve_held_call(prog, f, call):
                if q in seen:
                    continue
                seen.add(q)
                for b, path in clo.get(q, {}).items():
                    ncalls += 1
                    for h, md in call[3]:
                        a = mnode(prog, call[5], h)
                        if a == b and b.startswith('static ') and 'Instance' in b:
                            continue          # one mutex per instantiation
                        if a == b:
                            rep.ob('%s/calls %s' % (nm, q), False, call[4], 'no-self-deadlock', '%s is held while calling %s, which locks it (%s)' % (a, q, ' -> '.join(str(x) for x in path)))
                        else:
                            edges.setdefault((a, b), call[4] + ' via ' + q)
    for comp in cycles(set(edges)):
        ws = ['%s->%s at %s' % (a, b, l) for (a, b), l in sorted(edges.items()) if a in comp and b in comp]
        rep.ob('cycle:' + ','.join(comp), False, edges[[e for e in edges if e[0] in comp and e[1] in comp][0]].split(' ')[0], 'lock-order', 'mutexes are taken in conflicting orders: ' + '; '.join(ws))
    for (a, b), l in sorted(edges.items()):
        rep.ob('order %s -> %s' % (a, b), True, l, 'lock-order', '')
    rep.floor('lock acquisitions', nacq, 25)
    rep.stat('lock acquisitions', nacq)
    rep.stat('lock order edges', len(edges))
    rep.stat('lock-taking calls made with a lock held', ncalls)
    # waits
    nw = 0
    for k, c in uses.items():
        f = k[0] if isinstance(k, tuple) else k
        nm = '%s::%s' % (short(f.cls or ''), f.n)
        for cv, held, loc, lam, fn, own, wname in c.waits:
            nw += 1
            others = [m for m, md in held if m not in own]
            for k2, c2 in uses.items():
                f2 = k2[0] if isinstance(k2, tuple) else k2
                if f2.cls != f.cls:
                    continue
                if any(strip(n[0]) == strip(cv) for n in c2.notifies) and not (k2 is k):
                    acq = {m for m, h, l, fn2, e in c2.acquires}
                    for o in others:
                        rep.ob('%s/wait-holding %s/%s%s' % (nm, tshow(o), f2.n, '/lambda' if isinstance(k2, tuple) else ''), o not in acq, loc, 'wait-foreign-lock',
                               'waits on %s while holding %s, which the notifying code has to lock first (%s)' % (tshow(cv), tshow(o), f2.n))
            rep.ob('%s/wait-locked' % nm, all(any(h == m for h, md in held) for m in own), loc, 'wait-locked', 'wait on %s without holding its mutex' % tshow(cv))
    rep.floor('condition variable waits', nw, 6)
    rep.stat('condition variable waits', nw)


register('C12', deadlock, 'all',
         'Every function and deferred lambda that takes a lock is interpreted with the locks held on each path. Edges "held while taking" are collected over (class, mutex), including locks taken transitively by called functions (call graph by resolved callee, virtual calls to every override), std::lock/scoped_lock over several mutexes contributing no edges among themselves. The lock-order graph must be acyclic; no mutex may be re-acquired by the thread that holds it (directly or through a call); a condition variable is waited on only with its mutex held and with no other lock held that the notifying code needs.',
         'Deadlock freedom of the locking protocol')


# ---------------------------------------------------------------------------------------------- C13
def flag_of(t):
    """(field, ...) if the condition term is a flag member of this"""
    if t is None:
        return None
    if t[0] == 'C' and t[1] in ('load', 'conv') and t[2] is not None:
        t = strip(t[2])
    if t[0] == 'F' and t[1] == THIS:
        return t[2]
    return None


class ProtoClient(LockClient):
    """cl = (flags tested on this path, flags tested in this critical section, cvs owed a notification)"""

    def __init__(self, prog, cls, preds=None):
        super().__init__(prog, cls)
        self.preds = preds or {}      # field -> [(cv field, mutex fields, dirs)]
        self.sets = []
        self.unlockedw = []
        self.vac = []
        self.needall = set()
        self.fl = {f['n'] for q in self.hier if q in prog.classes for f in prog.classes[q].fields if 'bool' in (f.get('ct') or f.get('t') or '') and 'std::function' not in (f.get('ct') or '')}

    def branch(self, term, truth, st, node, func):
        fl = flag_of(term)
        if fl in self.fl:
            a, b, c = st.cl
            return st.w(cl=(a | {(fl, truth)}, b | {(fl, truth)}, c))
        return st

    def wr(self, fld, val, op, st, ev):
        a, b, c = st.cl
        lit = litbool(val) if val is not None and val[0] == 'L' else None
        if fld in self.fl and lit is not None:
            if (fld, not lit) in a:
                self.sets.append((fld, lit, (fld, not lit) in b and bool(st.locks), ev.loc, ev.func))
            b = frozenset(x for x in b if x[0] != fld)
            a = frozenset(x for x in a if x[0] != fld)
        for cv, mts, need in self.preds.get(fld, ()):
            if need(op, val):
                if not any(m == ('F', THIS, x) for m, v, md in st.locks for x in mts):
                    self.unlockedw.append((fld, cv, mts, ev.loc))
                c = c | {(cv, fld)}
        return st.w(cl=(a, b, c))

    def event(self, ev, st):
        r = super().event(ev, st)
        if ev.kind in ('lock', 'unlock'):
            return [x.w(cl=(x.cl[0], frozenset(), x.cl[2])) for x in (r or [st])]
        if fatal_shift(ev):
            return []
        if ev.kind == 'cvpre':
            lam = next((a for a in ev.args[1:] if a and a[0] == 'lam'), None)
            if lam is not None:
                it = ev.extra
                vs = []
                for y, t in it.inline_lambda(lam, (), st):
                    t, pol = norm_flip(t)
                    v = None
                    if t is not None:
                        v = litbool(t) if t[0] == 'L' else lookup(t, y.facts)
                    vs.append(v is not None and v == pol)
                self.vac.append((bool(vs) and all(vs), ev.loc, ev.base))
        if ev.kind == 'assign':
            fld = ev.lhs[2] if ev.lhs is not None and ev.lhs[0] == 'F' and ev.lhs[1] == THIS else None
            if fld:
                return [self.wr(fld, ev.rhs if ev.op == '=' else None, ev.op, st, ev)]
        if ev.kind == 'call':
            b = strip(ev.base) if ev.base is not None else None
            if b is not None and b[0] == 'F' and b[1] == THIS:
                if ev.name in ('store', 'exchange', 'operator='):
                    return [self.wr(b[2], ev.args[0] if ev.args else None, '=', st, ev)]
                if ev.name in ('fetch_add', 'operator++', 'operator+='):
                    return [self.wr(b[2], None, '++', st, ev)]
                if ev.name in ('fetch_sub', 'operator--', 'operator-='):
                    return [self.wr(b[2], None, '--', st, ev)]
                if ev.name == 'notify_all' or ev.name == 'notify_one' and b[2] not in self.needall:
                    a, bb, c = st.cl
                    return [st.w(cl=(a, bb, frozenset(x for x in c if x[0] != b[2])))]
        return r


class AfterWait(LockClient):
    """the members a function changes after it has waited"""

    def __init__(self, prog, cls):
        super().__init__(prog, cls)
        self.after = set()

    def event(self, ev, st):
        r = super().event(ev, st)
        if ev.kind == 'cvwait':
            return [x.w(cl=True) for x in (r or [st])]
        if st.cl:
            t = None
            if ev.kind == 'assign':
                t = ev.lhs
            elif ev.kind == 'call' and ev.base is not None and (ev.name in CONT_WRITES or (ev.name or '').startswith('operator')):
                t = ev.base
            fld = root_field(t) if t is not None else None
            if fld:
                self.after.add(fld)
        return r


def needs_notify(terms):
    """may a write make one of the predicate's terms come out as required?"""
    def need(op, val):
        for t, pol in terms:
            if t is None:
                return True
            if flag_of(t):
                if val is not None and val[0] == 'L' and litbool(val) is not None and litbool(val) != pol:
                    continue
                return True
            if t[0] == 'B' and t[1] == '==' and t[3] == ('L', 'int', '0') and pol and op in ('++', '+='):
                continue
            if t[0] == 'B' and t[1] == '<' and t[2] == ('L', 'int', '0') and not pol and op in ('++', '+='):
                continue
            return True
        return False
    return need


def protocol(prog, rep):
    nset = nwait = nw = 0
    sites = set()
    exempt = guard_spec().get('exempt', {})
    for q, c in mutex_classes(prog):
        cs = short(q)
        if exempt.get(cs) == '*':
            continue
        cvs = {f['n'] for f in c.fields if 'condition_variable' in (f.get('ct') or f.get('t') or '')}
        # 1. what the waits depend on
        preds = {}
        waits = []
        contain = {f['n'] for f in c.fields if any(x in (f.get('ct') or f.get('t') or '') for x in ('container', 'deque', 'vector', 'map<', 'list<'))}
        for f in entries(prog, q):
            loops = []

            def scan(n, loops):
                if n is None:
                    return
                if n['k'] in ('while', 'do', 'for') and n.get('c'):
                    loops = loops + [n['c']]
                if n['k'] == 'call' and n.get('f') and n['f'].get('k') == 'member' and n['f']['n'] in ('wait', 'wait_for', 'wait_until'):
                    b = n['f'].get('b')
                    if b and b.get('k') == 'member' and b['n'] in cvs:
                        lam = [a for a in n['a'] if any(x['k'] == 'lambda' for x in walk(a))]
                        conds = lam or loops[-1:]
                        rep.ob('%s::%s/wait-predicate %s' % (cs, f.n, b['n']), bool(conds) or n['f']['n'] != 'wait', f.loc, 'wait-predicate', 'a wait on %s without predicate or surrounding loop: a spurious wakeup ends it' % b['n'])
                        waits.append((f, b['n'], n, conds, bool(lam)))
                for x in kids(n):
                    scan(x, loops)
            scan(f.body, [])
        for f, cv, n, conds, islam in waits:
            nwait += 1
            lockids = {x.get('id') for x in walk(n['a'][0])} if n['a'] else set()
            mts = set()
            for x in walk(f.body):
                if x['k'] == 'decl':
                    for d in x['d']:
                        if d['id'] in lockids and d.get('i'):
                            mts |= {y['n'] for y in walk(d['i']) if y['k'] == 'member'}
            for fld in set().union(*[pred_fields(prog, q, x) for x in conds]) if conds else ():
                if fld in contain or fld in {x['n'] for x in c.fields if is_mutex_field(x)} or fld in cvs:
                    continue
                # required outcome of the condition
                terms = []
                for x in conds:
                    for lamn in ([y for y in walk(x) if y['k'] == 'lambda'] or [None]):
                        cl = Client()
                        cl.relevant = lambda g: g.cls == q
                        it = Interp(prog, cl, q)
                        it.stack = [f]
                        st0 = St({}, {}, (), None)
                        if lamn is not None:
                            outs = it.body(lamn['b'], [st0])
                            for st1, t in outs:
                                tt, pol = norm_flip(t)
                                if tt is not None and tt[0] == 'L' and litbool(tt) is not None:
                                    if litbool(tt) == pol:      # the outcome follows from the decisions on the way
                                        terms += list(st1.facts.items()) or [(None, True)]
                                    continue
                                terms.append((tt, pol))
                        else:
                            for st1, t in it.ev(x, st0):
                                tt, pol = norm_flip(t)
                                terms.append((tt, not pol))
                terms = [tp for tp in terms if tp[0] is None or mentions(tp[0], lambda y: y[0] == 'F' and y[2] == fld)] or [(None, True)]
                preds.setdefault(fld, []).append((cv, tuple(sorted(mts)), needs_notify(terms)))
        # several threads can be released by one event unless each consumes what it waited for
        needall = {}
        for f, cv, n, conds, islam in waits:
            flds = set().union(*[pred_fields(prog, q, x) for x in conds]) if conds else set()
            flds -= {x['n'] for x in c.fields if is_mutex_field(x)} | cvs
            roots = [f]
            if is_helper(prog, q, f):         # analysed where it is called
                roots = [e for e in entries(prog, q) if not is_helper(prog, q, e)]
            for r in roots:
                k = AfterWait(prog, q)
                LockInterp(prog, k, q).run(r, False)
                ws = [w for w in k.waits if w[0] is not None and strip(w[0]) == ('F', THIS, cv)]
                if not ws or k.after & flds:
                    continue
                if all(any(m not in w[5] for m, md in w[1]) for w in ws):
                    continue                  # another lock admits one waiter at a time
                needall[cv] = r.n

        # 2. all writes
        def mk(pr, cl):
            k = ProtoClient(pr, cl, preds)
            k.needall = set(needall)
            return k
        dt = [f for f in entries(prog, q) if f.d.get('kind') == 'dtor']
        final = set()
        for d in dt:
            for x in walk(d.body):
                if x['k'] == 'call' and x.get('f') and x['f'].get('k') == 'member':
                    final.add(x['f']['n'])
        for f in entries(prog, q):
            if f.d.get('kind') in ('ctor', 'dtor'):
                continue
            if is_helper(prog, q, f):
                continue
            todo = [(None, None, {})]
            while todo:
                lam, ln, lams = todo.pop()
                k = mk(prog, q)
                it = LockInterp(prog, k, q)
                cl0 = (frozenset(), frozenset(), frozenset())
                if lam is None:
                    out, thr = it.run(f, cl0)
                else:
                    it.lams = dict(lams)
                    out = run_lambda(it, f, ln, cl0)
                for l in list(it.lams):
                    if l not in it.ran and l not in lams:
                        todo.append((l, it.lams[l], dict(it.lams)))
                nm = '%s::%s' % (cs, f.n) + ('/lambda' if lam else '')
                for fld, lit, ok, loc, fn in k.sets:
                    if f.n in final:
                        continue
                    sites.add((cs, fld, loc))
                    rep.ob('%s/check-then-set %s' % (nm, fld), ok, loc, 'check-then-act', '%s is set to %s after a test of it that was not made in the same critical section: two threads can both pass the test' % (fld, str(lit).lower()))
                for fld, cv, mts, loc in k.unlockedw:
                    rep.ob('%s/write %s' % (nm, fld), False, loc, 'write-under-cv-mutex', '%s, on which threads wait with %s, is changed without holding %s: the wakeup can be lost' % (fld, cv, '/'.join(mts)))
                for v, loc, base in k.vac:
                    rep.ob('%s/wait-blocks %s' % (nm, tshow(base)), not v, loc, 'wait-not-vacuous', 'the wait predicate is already fulfilled whenever the wait is reached: nothing is ever waited for')
                for st, t in out:
                    for cv, fld in st.cl[2]:
                        rep.ob('%s/notify %s' % (nm, fld), False, f.loc, 'notify-after-change', '%s is changed on a path to the end of the function without a notification of %s%s' % (fld, 'all threads waiting on ' if cv in needall else '', cv))
                nw += len(preds)
        for fld in preds:
            rep.ob('%s::%s/waited-for' % (cs, fld), True, '%s:%d' % (c.file, c.line), 'notify-after-change', '')
    rep.floor('condition variable waits', nwait, 6)
    rep.floor('flags tested and set', len(sites), 1)
    rep.stat('condition variable waits', nwait)
    rep.stat('check-then-set sites', len(sites))


register('C13', protocol, 'all',
         'For every class owning a condition variable the members its wait predicates depend on are derived from the source (predicate lambda or enclosing loop condition, through own accessors). Every write that can make the predicate true (polarity of literals and increments considered) has to be made with the mutex of the wait held and has to be followed by a notification on every path to the end of the function. Waits need a predicate or loop, and the predicate must not be already implied when the wait is reached. A flag that a function tests and then sets must have been tested in the same critical section (double-checked locking keeps its inner check).',
         'No lost wakeups, no vacuous waits, atomic check-then-set')


# ---------------------------------------------------------------------------------------------- C14
class TaskClient(LockClient):
    """a task body: cl = (promise settled n, counter decremented n, notified after, thrown by task)"""

    def __init__(self, prog, cls, counter, cmtx, promises, fns, cvs):
        super().__init__(prog, cls)
        self.counter, self.cmtx, self.promises, self.fns, self.cvs = counter, cmtx, promises, fns, cvs
        self.bad = []
        self.user = 0

    def relevant(self, f):
        return f.cls in self.hier and f.d.get('kind') != 'dtor'

    def may_throw(self, ev, st):
        if ev.name in ('()', 'operator()') and ev.base is not None and ev.base in self.fns or ev.name == 'invoke' and ev.args and ev.args[0] in self.fns:
            self.user += 1
            return ('boost::exception', 'std::exception', FOREIGN)
        if ev.name in ('set_exception',):
            return ('std::future_error',)
        return ()

    def event(self, ev, st):
        p, d, nt, late = st.cl
        if fatal_shift(ev):
            return []
        k = ev.kind
        if k == 'call':
            b = strip(ev.base) if ev.base is not None else None
            if ev.name in ('set_value', 'set_exception') and b in self.promises:
                # set_value needs the task to have run, set_exception an exception
                if ev.name == 'set_exception':
                    return [st.w(cl=(min(p + 1, 2), d, nt, late))]
                return [st.w(cl=(min(p + 1, 2), d, nt, late))]
            if b == ('F', THIS, self.counter) and ev.name in ('operator--', 'fetch_sub', 'operator-='):
                return [self.dec(ev, st)]
            if ev.name in ('notify_one', 'notify_all') and b is not None and b[0] == 'F' and b[2] in self.cvs:
                return [st.w(cl=(p, d, 1 if d else 0, late))]
            if (ev.name in ('()', 'operator()') and ev.base in self.fns) and d:
                return [st.w(cl=(p, d, nt, 1))]
        if k == 'assign' and ev.lhs == ('F', THIS, self.counter) and ev.op in ('--', '-='):
            return [self.dec(ev, st)]
        return None

    def dec(self, ev, st):
        p, d, nt, late = st.cl
        if not any(m == ('F', THIS, self.cmtx) for m, v, md in st.locks):
            self.bad.append(('decrement-locked', ev.loc, 'the task counter is decremented without holding %s: the wakeup of a waiting thread can be lost' % self.cmtx))
        if not p:
            self.bad.append(('settled-before-count', ev.loc, 'a task is counted as finished before its promise is settled'))
        return st.w(cl=(p, min(d + 1, 2), 0, late))


class PostClient(LockClient):
    """a scheduling function: cl = (increments, posts, started known, guard)"""

    def __init__(self, prog, cls, counter, subm):
        super().__init__(prog, cls)
        self.counter, self.subm = counter, subm
        self.posts = []
        self.counts = []
        self.boolf = {n for n, f in self.fields.items() if 'bool' in (f.get('ct') or f.get('t') or '')}
        self.creates = []

    def relevant(self, f):
        return f.cls in self.hier and f.d.get('kind') != 'dtor'

    def event(self, ev, st):
        i, p, guard, joined, waited, made = st.cl
        if ev.kind == 'assign' and ev.lhs == ('F', THIS, self.counter) and ev.op in ('++', '+='):
            return [st.w(cl=(min(i + 1, 2), p, guard, joined, waited, made))]
        if ev.kind == 'assign' and ev.lhs == ('F', THIS, self.counter) and ev.op in ('--', '-='):
            return [st.w(cl=(max(i - 1, 0), p, guard, joined, waited, made))]
        if ev.kind == 'call':
            b = strip(ev.base) if ev.base is not None else None
            if b == ('F', THIS, self.counter) and ev.name in ('operator++', 'fetch_add', 'operator+='):
                return [st.w(cl=(min(i + 1, 2), p, guard, joined, waited, made))]
            if ev.name in ('post', 'dispatch', 'defer') and any(a and a[0] == 'lam' for a in ev.args):
                self.posts.append((i, any(m == ('F', THIS, self.subm) for m, v, md in st.locks), ev.loc, [a for a in ev.args if a and a[0] == 'lam'][0]))
                return [st.w(cl=(i, min(p + 1, 2), guard, joined, waited, made))]
            if b is not None and b[0] == 'F' and b[1] == THIS:
                f = self.fields.get(b[2])
                ty = ((f.get('ct') or '') + (f.get('t') or '')) if f else ''
                if 'work' in ty and ev.name in ('reset', 'operator='):
                    return [st.w(cl=(i, p, 'set' if ev.args and ev.args[0] is not None and ev.args[0] != ('L', 'null', 'nullptr') else 'unset', joined, waited, made))]
                if ev.name in ('join_all', 'join'):
                    self.creates.append(('join', guard, joined, ev.loc, self.zero(st), waited))
                    return [st.w(cl=(i, p, guard, 'joined', waited, made))]
                if ev.name == 'restart' or ev.name == 'reset' and 'io_' in ty:
                    return [st.w(cl=(i, p, guard, 'restarted', waited, made))]
                if ev.name in ('create_threads', 'create_thread'):
                    self.creates.append(('create', guard, joined, ev.loc, None, waited))
                    if ev.name == 'create_threads' and len(ev.args) > 1:
                        run = any(v for t, v in st.facts.items() if (flag_of(t) or '') in self.boolf)
                        self.counts.append((value_of(ev.args[1]), joined is not None, run, ev.loc, made))
                    return [st]
        if ev.kind == 'call' and ev.name in ('store', 'operator=') and ev.base is not None and ev.base[0] == 'F' and ev.base[1] == THIS and ev.args and (value_of(ev.args[0]) or ('?',))[0] == 'P':
            return [st.w(cl=(i, p, guard, joined, waited, made | {ev.base[2]}))]
        if ev.kind == 'assign' and ev.lhs is not None and ev.lhs[0] == 'F' and ev.lhs[1] == THIS:
            f = self.fields.get(ev.lhs[2])
            if ev.rhs is not None and (value_of(ev.rhs) or ('?',))[0] == 'P':
                return [st.w(cl=(i, p, guard, joined, waited, made | {ev.lhs[2]}))]
            ty = ((f.get('ct') or '') + (f.get('t') or '')) if f else ''
            if 'work' in ty:
                return [st.w(cl=(i, p, 'unset' if ev.rhs == ('L', 'null', 'nullptr') else 'set', joined, waited, made))]
        return super().event(ev, st)

    def branch(self, term, truth, st, node, func):
        if zero_known(st.w(facts={term: truth}), self.counter) and any(m == ('F', THIS, self.subm) for m, v, md in st.locks):
            i, p, guard, joined, waited, made = st.cl
            return st.w(cl=(i, p, guard, joined, 1, made))
        return st

    def zero(self, st):
        return zero_known(st, self.counter)


def zero_known(st, counter):
    for t, v in st.facts.items():
        if not mentions(t, lambda y: y == ('F', THIS, counter)):
            continue
        if t[0] == 'B' and t[1] == '==' and t[3] == ('L', 'int', '0') and v:
            return True
        if t[0] == 'B' and t[1] == '<' and t[2] == ('L', 'int', '0') and not v:
            return True
        if t[0] == 'B' and t[1] == '<' and t[3] == ('L', 'int', '1') and v:
            return True
        if (t == ('F', THIS, counter) or t == ('C', 'load', ('F', THIS, counter), ())) and not v:
            return True
    return False


def value_of(t):
    t = strip(t)
    while t is not None and t[0] == 'C' and t[1] in ('load', 'conv') and t[2] is not None or t is not None and t[0] == 'K' and len(t[2]) == 1:
        t = strip(t[2]) if t[0] == 'C' else strip(t[2][0])
    return t


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def thread_pool(prog, rep):
    pools = [q for q, c in prog.classes.items() if c.d.get('mode') != 'inst' and short(q) == 'GThreadPool']
    rep.floor('thread pool class', len(pools), 1)
    ntask = nwaitf = 0
    for cls in pools:
        c = prog.classes[cls]
        cvs = {f['n'] for f in c.fields if 'condition_variable' in (f.get('ct') or f.get('t') or '')}
        mts = {f['n'] for f in c.fields if is_mutex_field(f)}
        fs = analyse_class(prog, cls)
        # counter: an atomic number which is incremented and decremented
        names = {f['n'] for f in c.fields if not is_mutex_field(f) and 'bool' not in (f.get('ct') or f.get('t') or '')}
        inc, dec = set(), set()
        for f in entries(prog, cls):
            for x in walk(f.body):
                t = None
                if x['k'] == 'un' and x['op'] in ('++', '--') and x['s'].get('k') == 'member':
                    t, o = x['s']['n'], x['op']
                elif x['k'] == 'bin' and x['op'] in ('+=', '-=') and x['a'].get('k') == 'member':
                    t, o = x['a']['n'], x['op'][0] * 2
                elif x['k'] == 'call' and x.get('f') and x['f'].get('k') == 'member' and x['f']['n'] in ('fetch_add', 'fetch_sub', 'operator++', 'operator--') and (x['f'].get('b') or {}).get('k') == 'member':
                    t, o = x['f']['b']['n'], '++' if x['f']['n'] in ('fetch_add', 'operator++') else '--'
                if t in names:
                    (inc if o == '++' else dec).add(t)
        cand = sorted(inc & dec) or sorted(inc | dec)
        if not cand:
            raise AnalysisBroken('thread pool: task counter not found')
        counter = cand[0]
        # mutexes: the one of the waits, and the one held over a post
        cmtx = None
        for k, cl in fs.items():
            for w in cl.waits:
                for m in w[5]:
                    if m[0] == 'F':
                        cmtx = m[2]
        if cmtx is None:
            raise AnalysisBroken('thread pool: nobody waits for the tasks')
        # the lock that keeps submissions out while somebody waits: held by most waits and posts
        votes, wl = {}, []
        for f in entries(prog, cls):
            if is_helper(prog, cls, f):
                continue

            class Q(LockClient):
                def event(s, ev, st):
                    hl = {m[2] for m, v, md in st.locks if m[0] == 'F'} - {cmtx}
                    if ev.kind == 'cvwait':
                        wl.append((f, hl, ev.loc))
                    if ev.kind == 'cvwait' or ev.kind == 'call' and ev.name in ('post', 'dispatch', 'defer'):
                        for m in hl:
                            votes[m] = votes.get(m, 0) + 1
                    return super().event(ev, st)
            LockInterp(prog, Q(prog, cls), cls).run(f, None)
        if not votes:
            rep.ob('GThreadPool/submission-blocked-while-waiting', False, '%s:%d' % (c.file, c.line), 'wait-excludes-submission', 'no common lock is held while waiting for the tasks to finish: new tasks can be submitted at the same time')
            continue
        subm = max(sorted(votes), key=lambda m: votes[m])
        for f, hl, loc in wl:
            rep.ob('GThreadPool::%s/submission-blocked-while-waiting' % f.n, subm in hl, loc, 'wait-excludes-submission', 'waits for the tasks to finish without holding %s: new tasks can be submitted at the same time' % subm)
        for f in entries(prog, cls):
            if f.d.get('kind') == 'ctor' or is_helper(prog, cls, f):
                continue
            k = PostClient(prog, cls, counter, subm)
            it = LockInterp(prog, k, cls)
            out, thr = it.run(f, (0, 0, None, None, 0, frozenset()))
            ky = 'GThreadPool::' + f.n + ('[void]' if any(p['t'].startswith('typename std::enable_if<std::is_void') or 'not' not in p['t'] and 'is_void' in p['t'] and '!' not in p['t'] for p in f.params if 'is_void' in (p.get('t') or '')) else '')
            for i, held, loc, lam in k.posts:
                rep.ob(ky + '/counted', i == 1, loc, 'count-before-post', 'a task is handed to the io_context with the task counter incremented %d times: wait() can miss it or never return' % i)
                rep.ob(ky + '/submission-lock', held, loc, 'post-under-submission-lock', 'a task is posted without holding %s: it can slip in while another thread waits for the pool to run empty' % subm)
            if k.posts:
                for st, t in out:
                    rep.ob(ky + '/posted-once', st.cl[1] == 1, f.loc, 'post-exactly-once', 'a scheduling path posts the task %s' % ('several times' if st.cl[1] else 'not at all'))
                for st, ty, nd in thr:
                    rep.ob(ky + '/throw-balance', st.cl[0] == st.cl[1], f.loc, 'count-before-post', 'an exception leaves the task counter incremented without a task: wait() never returns')
            setter = any('int' in (p.get('ct') or p.get('t') or '') or 'size_t' in (p.get('ct') or p.get('t') or '') for p in f.params) and f.d.get('kind') != 'ctor' and not k.posts
            for t, fresh, run, loc, setf in k.counts:
                par = [x for x in subterms(t) if x[0] == 'P']
                num = [x for x in subterms(t) if x[0] == 'F' and x[1] == THIS or x[0] == 'C' and x[1] == 'size']
                # a function which is told the number of threads starts that number
                new = lambda x: x[0] in ('P', 'V') or x[0] == 'F' and x[2] in setf
                if fresh or not run:
                    ok = new(t) or t[0] == 'F' and not setter
                else:
                    ok = t[0] == 'B' and t[1] == '-' and new(t[2]) and any(x[0] == 'C' or x[2] not in setf for x in num)
                rep.ob(ky + '/thread-count', ok, loc, 'thread-count', '%s threads are started %s' % (tshow(t), 'although none is running any more' if fresh else 'in addition to those already running: the number of threads is not the one asked for'))
            for kind, guard, joined, loc, z, waited in k.creates:
                if kind == 'join':
                    rep.ob(ky + '/join-after-release', guard == 'unset', loc, 'join', 'threads are joined although the work guard of the io_context still exists: run() never returns')
                    rep.ob(ky + '/join-after-drain', bool(waited) or z, loc, 'join', 'threads are stopped before the outstanding tasks have been waited for')
                else:
                    rep.ob(ky + '/create-restarted', joined != 'joined', loc, 'create', 'threads are created on a stopped io_context (no restart() since the threads were joined): they return at once')
                    rep.ob(ky + '/create-guarded', guard != 'unset', loc, 'create', 'threads are created while no work guard keeps the io_context running')
            # functions that wait must have seen the counter at zero
            if any(x['k'] == 'call' and x.get('f') and x['f'].get('k') == 'member' and x['f']['n'] == 'wait' and (x['f'].get('b') or {}).get('n') in cvs for x in class_nodes(prog, f)) and f.d.get('kind') != 'dtor' and not any(x['k'] == 'call' and x.get('f') and x['f'].get('k') == 'member' and x['f']['n'] in ('create_threads', 'join_all') for x in class_nodes(prog, f)):
                nwaitf += 1
                for st, t in out:
                    rep.ob(ky + '/drained', bool(st.cl[4]), f.loc, 'wait-until-zero', 'returns although %s == 0 has not been established' % counter)
            # task bodies
            for i, held, loc, lam in k.posts[:1]:
                ln = it.lams[lam]
                prom, fns, cap = set(), set(), {}
                tk = TaskClient(prog, cls, counter, cmtx, prom, fns, cvs)
                it2 = LockInterp(prog, tk, cls)
                it2.lams = dict(it.lams)
                it2.exc = [[]]
                it2.stack = [f]
                # names in the body: promise objects receive set_value, everything else invoked is the task
                for x in walk(ln['b']):
                    if x['k'] == 'call' and x.get('f'):
                        if x['f'].get('k') == 'member' and x['f']['n'] in ('set_value', 'set_exception'):
                            for st, t in it2.ev(x['f']['b'], St({}, {}, (), (0, 0, 0, 0))):
                                prom.add(strip(t))
                        elif x.get('op') == '()' or x['f'].get('k') == 'ref' and x['f'].get('rk') in ('local', 'param'):
                            for st, t in it2.ev(x['f'], St({}, {}, (), (0, 0, 0, 0))):
                                fns.add(t)
                it2.exc = [[]]
                outl = it2.body(ln['b'], [St({}, {}, (), (0, 0, 0, 0))])
                ntask += 1
                rep.ob(ky + '/runs-task', tk.user > 0, loc, 'task-executed', 'the posted function does not execute the task')
                for st, t in outl:
                    p, d, nt, late = st.cl
                    rep.ob(ky + '/promise', p == 1, loc, 'promise-settled-once', 'a path through the task %s: %s' % ('leaves its promise unsettled' if p == 0 else 'settles its promise twice', 'get() on the future throws broken_promise' if p == 0 else 'the second attempt throws'))
                    rep.ob(ky + '/uncounted', d == 1, loc, 'counter-decremented-once', 'a path through the task decrements the task counter %d times' % d)
                    rep.ob(ky + '/notified', nt == 1, loc, 'notify-after-decrement', 'a path through the task does not notify the waiting thread after decrementing the counter')
                    rep.ob(ky + '/order', not late, loc, 'task-before-count', 'the task is executed after it has been counted as finished')
                for st, ty, nd in it2.exc[0]:
                    rep.ob(ky + '/escape', False, loc, 'no-escaping-exception', 'an exception (%s) leaves the task body: the counter is not decremented and the io_context thread dies' % ty)
                for r, l, m in tk.bad:
                    rep.ob(ky + '/' + r, False, l, r, m)
    rep.floor('task bodies', ntask, 1)
    rep.floor('waiting functions', nwaitf, 1)
    rep.stat('task bodies', ntask)


register('C14', thread_pool, 'lib',
         'GThreadPool is interpreted path by path: each scheduling path increments the task counter once and then posts the task once while holding the submission lock; the posted body, with the user task assumed to throw boost and std exceptions, settles its promise exactly once (value or exception), then decrements the counter exactly once under the mutex of the waits and notifies; no exception leaves it. wait() returns only on paths on which counter==0 has been established, with the submission lock held. Threads are joined only after the outstanding tasks were waited for and the work guard was released, and created only on a (re)started io_context with a work guard.',
         'Task accounting of the thread pool')


# ---------------------------------------------------------------------------------------------- C15
THREADY = ('std::thread', 'std::jthread', 'GThreadGroup')


def thread_fields(prog, c):
    r = []
    for f in c.fields:
        t = (f.get('ct') or '') + ' ' + (f.get('t') or '')
        if any(x in t for x in THREADY) and 'mutex' not in t:
            r.append(f['n'])
    return r


def no_threads(term, truth, tf):
    """is (term == truth) a statement that there is no thread to be joined?"""
    t = term
    if t[0] == 'C' and t[1] == 'joinable':
        return not truth
    if t[0] == 'C' and t[1] == 'empty':
        return truth
    size = lambda y: y is not None and (y[0] == 'C' and y[1] in ('size', 'load') or y[0] == 'F' and y[2] in tf)
    if size(t):
        return not truth
    if t[0] == 'B' and t[1] == '==' and (size(t[2]) or size(t[3])) and (t[2][0] == 'L' and t[2][2] in ('0', 'nullptr') or t[3][0] == 'L' and t[3][2] in ('0', 'nullptr')):
        return truth
    if t[0] == 'B' and t[1] == '<' and t[2] == ('L', 'int', '0') and size(t[3]):
        return not truth
    if t[0] == 'B' and t[1] == '<' and t[3] == ('L', 'int', '1') and size(t[2]):
        return truth
    return False


class JoinClient(LockClient):
    """cl = (stop signals given, thread fields joined, branched)"""
    max_states = 800

    def __init__(self, prog, cls, tf):
        super().__init__(prog, cls)
        self.tf = set(tf)
        self.joins = []
        self.detached = []

    def branch(self, term, truth, st, node, func):
        if flag_of(term) or no_threads(term, truth, self.tf):
            s, j, b = st.cl
            return st.w(cl=(s, j, True))
        return st

    def sig(self, st, what):
        s, j, b = st.cl
        return [st.w(cl=(s | {what}, j, b))]

    def event(self, ev, st):
        if fatal_shift(ev):
            return []
        s, j, b = st.cl
        if ev.kind == 'loopexit':
            # a loop over the threads that joins them: no threads, nothing left running
            names = {x['n'] for h in (ev.node.get('r'), ev.node.get('c'), ev.node.get('i')) if h for x in walk(h) if x['k'] == 'member'}
            got = names & {x[0] for x in self.joins}
            return [st.w(cl=(s, j | got, b))] if got else None
        if ev.kind == 'call' and ev.base is not None:
            fld = root_field(ev.base)
            if fld is None:
                return None
            f = self.fields.get(fld, {})
            ty = (f.get('ct') or '') + ' ' + (f.get('t') or '')
            if fld in self.tf and ev.name in ('join', 'join_all'):
                self.joins.append((fld, s, ev.loc, ev.func))
                return [st.w(cl=(s, j | {fld}, b))]
            if fld in self.tf and ev.name == 'detach':
                self.detached.append((fld, ev.loc))
            if 'bool' in ty and ev.name in ('store', 'exchange', 'operator=') and ev.args and ev.args[0] == ('L', 'bool', 'true'):
                return self.sig(st, 'flag')
            if ev.name in ('stop', 'request_stop') or ('work' in ty and ev.name == 'reset' and not [a for a in ev.args if a != ('L', 'null', 'nullptr')]):
                return self.sig(st, 'stop')
        if ev.kind == 'assign' and ev.lhs is not None and ev.lhs[0] == 'F' and ev.lhs[1] == THIS:
            f = self.fields.get(ev.lhs[2], {})
            ty = (f.get('ct') or '') + ' ' + (f.get('t') or '')
            if 'bool' in ty and ev.rhs == ('L', 'bool', 'true'):
                return self.sig(st, 'flag')
            if 'work' in ty and ev.rhs == ('L', 'null', 'nullptr'):
                return self.sig(st, 'stop')
        return None


def thread_needs(prog, cls, hier):
    """what ends the threads of a class: 'stop' (io_context run by a thread) and/or 'flag' (a flag polled by the thread function)"""
    needs = set()
    src = []
    for q in [cls]:
        for f in entries(prog, q):
            for x in walk(f.body):
                if x['k'] == 'lambda':
                    for y in walk(x['b']):
                        if y['k'] == 'call' and y.get('f') and y['f'].get('k') == 'member' and y['f']['n'] == 'run':
                            b = y['f'].get('b') or {}
                            nm = b.get('n')
                            fl = next((g for h in hier if h in prog.classes for g in prog.classes[h].fields if g['n'] == nm), None)
                            if fl and 'io_' in ((fl.get('ct') or '') + (fl.get('t') or '')):
                                needs.add('stop')
    return needs


def thread_lifetime(prog, rep):
    ncls = njoin = 0
    # every thread started is owned
    for f in prog.funcs:
        if not f.body or f.d.get('mode') == 'inst':
            continue
        for x in walk(f.body):
            if x['k'] == 'call' and x.get('f') and x['f'].get('k') == 'member' and x['f']['n'] == 'detach' and not x['a']:
                rep.ob('%s::%s/detach' % (short(f.cls or ''), f.n), False, '%s:%d' % (f.file, x.get('l', f.line)), 'no-detached-thread', 'a thread is detached: it can outlive the objects it uses')
    for q, c in sorted(prog.classes.items()):
        if c.d.get('mode') == 'inst' or short(q) == 'GThreadGroup':
            continue
        tf = thread_fields(prog, c)
        if not tf:
            continue
        ncls += 1
        cs = short(q)
        hier = [q] + prog.bases_of(q)
        needs = thread_needs(prog, q, hier)
        runs = {}
        for f in entries(prog, q):
            if f.d.get('kind') == 'ctor':
                continue
            k = JoinClient(prog, q, tf)
            it = LockInterp(prog, k, q)
            out, thr = it.run(f, (frozenset(), frozenset(), False))
            runs[f] = (k, out)
            for fld, loc in k.detached:
                rep.ob('%s::%s/detach %s' % (cs, f.n, fld), False, loc, 'no-detached-thread', 'a thread of %s is detached' % cs)
        enders = [f for f in runs if f.d.get('kind') == 'dtor' or f.n == 'shutdown_' or f.n == 'shutdown']
        for fld in tf:
            jf = [(f, k, out) for f, (k, out) in runs.items() if any(j[0] == fld for j in k.joins)]
            end = [(f, k, out) for f, k, out in jf if f in enders]
            rep.ob('%s::%s/joined' % (cs, fld), bool(end), '%s:%d' % (c.file, c.line), 'joined-at-end', 'the threads in %s are not joined by the destructor or shutdown function' % fld)
            for f, k, out in jf:
                top = f in enders or not is_helper(prog, q, f)
                for jfld, sig, loc, fn in k.joins:
                    if jfld != fld or not top:
                        continue
                    njoin += 1
                    ok = bool(sig) and (needs <= set(sig))
                    rep.ob('%s::%s/stop-before-join %s' % (cs, f.n, fld), ok, loc, 'stop-before-join', 'the threads in %s are joined before they have been told to stop (%s): the join never returns' % (fld, ', '.join(sorted(needs - set(sig))) or 'no stop request'))
            for f, k, out in end:
                for st, t in out:
                    s, j, b = st.cl
                    rep.ob('%s::%s/all-paths %s' % (cs, f.n, fld), fld in j or b, f.loc, 'joined-at-end', 'a path through %s leaves the threads in %s running' % (f.n, fld))
    rep.floor('thread-owning classes', ncls, 4)
    rep.floor('joins', njoin, 4)
    rep.stat('thread-owning classes', ncls)


register('C15', thread_lifetime, 'all',
         'For every class with a member holding threads (std::thread, containers of it, GThreadGroup): the destructor or the shutdown function (which the broker calls for each consumer) joins it, on every path not excluded by a state flag; each join is preceded on its path by the stop request its threads obey (a flag set to true; for threads that run an io_context, stop() or the release of its work guard). No thread is detached.',
         'Worker threads are stopped and joined')
