"""C09: a work item that was taken from the broker always finds its way back."""
from facts import walk, AnalysisBroken
from flow import *
from rules.registry import register
from rules.matrix import short
from rules.locks import run_lambda, LockInterp

LOST = 'Gem::Courtier::buffer_not_present'
PEX = 'Gem::Courtier::g_processing_exception'


def plain(prog, q):
    return [f for f in prog.bycls.get(q, []) if f.body and f.d.get('mode') != 'inst']


def unptr(t):
    t = strip(t)
    while t is not None and t[0] in ('D', 'A'):
        t = strip(t[1])
    return t


class RunClient(Client):
    """cl = (state, item term); state: none / maybe / held / done"""
    max_depth = 5
    max_states = 2000

    def __init__(self, prog, cls):
        self.cls = cls
        self.hier = {cls} | set(prog.bases_of(cls))
        self.bad = []
        self.got = self.proc = self.sub = 0

    def relevant(self, f):
        return f.cls in self.hier and not f.d.get('virt')

    def event(self, ev, st):
        if ev.kind != 'call':
            return None
        s, it, p, stop = st.cl
        n = ev.name
        if n == 'retrieve_':
            self.got += 1
            if s == 'held':
                self.bad.append(('item-lost', ev.loc, 'the next work item is retrieved before the previous one was handed back'))
            t = ('C', n, ev.base, tuple(ev.args))
            return [st.w(cl=('maybe', t, 0, False))]
        if n == 'process_':
            self.proc += 1
            if s in ('none', 'maybe'):
                self.bad.append(('item-known', ev.loc, 'processing starts although it is not established that an item was retrieved'))
            if s == 'held' and unptr(ev.args[0]) != it:
                self.bad.append(('right-item', ev.loc, 'an item other than the retrieved one is processed'))
            if p:
                self.bad.append(('processed-once', ev.loc, 'an item is processed twice'))
            return [st.w(cl=(s, it, 1, stop))]
        if n == 'submit_':
            self.sub += 1
            if s == 'done':
                self.bad.append(('returned-once', ev.loc, 'an item is handed back twice'))
            if s == 'held' and unptr(ev.args[0]) != it:
                self.bad.append(('right-item', ev.loc, 'an item other than the retrieved one is handed back'))
            if s == 'held' and not p:
                self.bad.append(('processed-once', ev.loc, 'an item is handed back unprocessed'))
            return [st.w(cl=('done', it, p, stop))]
        return None

    def branch(self, t, truth, st, node, func):
        s, it, p, stop = st.cl
        u = unptr(t)
        pol = truth
        while u is not None and u[0] == 'U' and u[1] == '!':
            u = unptr(u[2]); pol = not pol
        if u is not None and u[0] == 'C' and u[1] in ('stop_requested_', 'stop_requested'):
            return st.w(cl=(s, it, p, pol))
        if s == 'maybe' and unptr(t) == it:
            return st.w(cl=('held' if truth else 'none', it if truth else None, 0, stop))
        return st

    def may_throw(self, ev, st):
        if ev.kind == 'call' and ev.name == 'process_':
            return (PEX,)
        return ()


class FwdClient(Client):
    """which calls happen with which arguments; throwing of the given callees"""
    max_depth = 5
    max_states = 2000

    def __init__(self, cls, throwers, relevant=None):
        self.cls = cls
        self.throwers = throwers
        self.rel = relevant
        self.calls = []

    def relevant(self, f):
        return bool(self.rel) and self.rel(f)

    def event(self, ev, st):
        if ev.kind == 'call' and ev.name in ('reset', 'swap') and ev.base is not None or ev.kind == 'assign' and ev.lhs is not None:
            t = unptr(ev.base if ev.kind == 'call' else ev.lhs)
            if any(n == 'get' and a and a[0] == t for n, a in st.cl):
                return [st.w(cl=st.cl | {('replaced', (t,))})]
        if ev.kind == 'call' and ev.name:
            self.calls.append((ev.name, ev.base, tuple(ev.args), ev.loc))
            return [st.w(cl=st.cl | {(ev.name, tuple(unptr(a) for a in ev.args))})]
        return None

    def may_throw(self, ev, st):
        if ev.kind == 'call':
            return self.throwers(ev)
        return ()


def functor(ev):
    """the function object a call event invokes: f(..) on a variable, or this->m_f(..) on a field"""
    if ev.kind != 'call' or not ev.name:
        return None
    if ev.name in ('()', 'operator()'):
        return unptr(ev.base)
    if ev.base is not None:
        return ('F', ev.base, ev.name)
    return None


def is_broker(t):
    t = unptr(t) if t is not None else None
    if t is None:
        return False
    return t[0] == 'F' and 'broker' in t[2].lower() or t[0] == 'G' and 'broker' in t[1].lower() or t[0] == 'C' and 'roker' in t[1]


def broker_throw(ev):
    return (LOST,) if ev.name == 'put' and is_broker(ev.base) else ()


def lambdas(f):
    return [x for x in walk(f.body) if x['k'] == 'lambda']


def calls_in(n, name):
    return any(x['k'] == 'call' and (x.get('f') or {}).get('n') == name for x in walk(n))


def reaches(prog, cls, names):
    """methods of cls from which one of the named calls is reached"""
    fs = {f.n: f for f in plain(prog, cls)}
    r = set()
    ch = True
    while ch:
        ch = False
        for n, f in fs.items():
            if n in r:
                continue
            for x in walk(f.body):
                if x['k'] == 'call':
                    c = (x.get('f') or {}).get('n')
                    if c in names or c in r:
                        r.add(n); ch = True
                        break
    return r


def en(t):
    t = unptr(t)
    return t[1].split('::')[-1] if t is not None and t[0] == 'E' else None


def nm(x):
    return (x.get('f') or {}).get('n') or x.get('n')


def incoming(f):
    """data members from which the message handed to container_from_string is taken"""
    loc = {}
    for x in walk(f.body):
        if x['k'] == 'decl':
            for d in (x.get('d') or []):
                if d.get('i'):
                    loc[d['n']] = d['i']
    r = set()
    for x in walk(f.body):
        if x['k'] == 'call' and nm(x) == 'container_from_string' and x.get('a'):
            work = [x['a'][0]]
            for _ in range(4):
                nxt = []
                for w in work:
                    for y in walk(w):
                        if y['k'] == 'member':
                            r.add(y.get('n'))
                        elif y['k'] == 'ref' and nm(y) in loc:
                            nxt.append(loc[nm(y)])
                work = nxt
    return {n for n in r if n and n.startswith('m_')}


def callgraph(prog, q):
    g = {}
    for f in plain(prog, q):
        g.setdefault(f.n, set()).update(nm(x) for x in walk(f.body) if x['k'] == 'call' and nm(x))
    return g


def reads_again(prog, q, f):
    """another message can be read after f has handled one"""
    g = callgraph(prog, q)
    seen, work = set(), [f.n] + [n for n, c in g.items() if f.n in c]
    while work:
        n = work.pop()
        if n in seen:
            continue
        seen.add(n)
        c = g.get(n, ())
        if 'async_read' in c or 'async_read_some' in c:
            return True
        work += [x for x in c if x in g]
    return False


def run(prog, rep):
    # (a) the worker loop
    nw = 0
    for q in sorted(prog.classes):
        fs = plain(prog, q)
        names = {f.n for f in fs}
        decl = {m['n'] for m in (prog.classes[q].d.get('methods') or [])}
        if 'run' not in names or not {'retrieve_', 'submit_', 'process_'} <= (decl | names):
            continue
        for f in fs:
            if f.n != 'run':
                continue
            nw += 1
            k = RunClient(prog, q)
            it = Interp(prog, k, q)
            out, thrown = it.run(f, ('none', None, 0, False))
            key = '%s::run' % short(q)
            if not (k.got and k.proc and k.sub):
                raise AnalysisBroken('%s: retrieval/processing/submission not found in the worker loop' % q)
            for r in ('item-lost', 'item-known', 'right-item', 'processed-once', 'returned-once'):
                v = [x for x in k.bad if x[0] == r]
                rep.ob('%s/%s' % (key, r), not v, v[0][1] if v else f.loc, r, v[0][2] if v else '')
            left = [st for st, _ in out if st.cl[0] == 'held'] + [st for st, ty, n in thrown if st.cl[0] == 'held']
            rep.ob('%s/returned' % key, not left, f.loc, 'item-lost', 'a path leaves the worker loop with a retrieved item that is never handed back (also when its processing fails)')
            rep.ob('%s/until-stopped' % key, all(st.cl[3] for st, _ in out), f.loc, 'worker-goes-on', 'the worker leaves its loop although no stop was requested (e.g. when no item was available)')
    rep.floor('worker loops', nw, 1)
    # (b) worker steps
    nb = 0
    for q in sorted(prog.classes):
        if not any(short(b) == 'GWorkerT' for b in prog.bases_of(q)):
            continue
        for f in plain(prog, q):
            if f.n == 'process_':
                nb += 1
                k = FwdClient(q, lambda ev: (), Helpers(prog, q).relevant)
                out, _ = Interp(prog, k, q).run(f, frozenset())
                P = ('P', 0, f.params[0]['n'])
                ok = all(any(n == 'process' for n, a in st.cl) for st, _ in out) and any(n == 'process' and unptr(b) == P for n, b, a, l in k.calls)
                rep.ob('%s::process_/processes' % short(q), ok, f.loc, 'item-processed', 'a path does not process the item')
            if f.n in ('submit_', 'retrieve_'):
                nb += 1
                k = FwdClient(q, lambda ev: (), Helpers(prog, q).relevant)
                out, _ = Interp(prog, k, q).run(f, frozenset())
                nm = f.n.rstrip('_')
                if nm == 'submit':
                    P = ('P', 0, f.params[0]['n'])
                    ok = all(any(n == 'submit' and a and a[0] == P for n, a in st.cl) for st, _ in out)
                else:
                    ok = all(r is not None and r[0] == 'C' and r[1] == 'retrieve' for st, r in out)
                rep.ob('%s::%s/forwards' % (short(q), f.n), ok, f.loc, 'item-forwarded', '%s does not pass the item on to the broker connection' % f.n)
    for q in sorted(prog.classes):
        if short(q) != 'GBrokerFerryT':
            continue
        for f in plain(prog, q):
            if f.n in ('submit', 'retrieve'):
                nb += 1
                k = FwdClient(q, lambda ev: (), Helpers(prog, q).relevant)
                out, _ = Interp(prog, k, q).run(f, frozenset())
                P = ('P', 0, f.params[0]['n'])
                ok = bool(out)
                fn = {'()'} | {x['n'] for x in prog.classes[q].fields if 'function<' in x['t']}
                for st, r in out:
                    if f.n == 'submit':
                        ok = ok and any(n in fn and a and a[0] == P for n, a in st.cl)
                    else:
                        ok = ok and r is not None and r[0] == 'C' and r[1] in fn
                rep.ob('%s::%s/forwards' % (short(q), f.n), ok, f.loc, 'item-forwarded', '%s does not forward the item' % f.n)
    rep.floor('worker steps', nb, 4)
    # (c) connections to the broker: every function or lambda that calls put/get on the broker
    nc = 0
    for q in sorted(prog.classes):
        if '::Courtier::' not in q or short(q) in ('GBrokerT',):
            continue
        for f in plain(prog, q):
            if f.d.get('kind') in ('ctor', 'dtor'):
                continue
            tops = []
            ls = [l for l in lambdas(f)]
            for l in ls:
                if calls_in(l['b'], 'put') or calls_in(l['b'], 'get'):
                    tops.append(('lambda', l))
            inl = {id(y) for l in ls for y in walk(l['b'])}
            if any(x['k'] == 'call' and (x.get('f') or {}).get('n') in ('put', 'get') and id(x) not in inl for x in walk(f.body)):
                tops.append(('func', None))
            for kind, l in tops:
                k = FwdClient(q, broker_throw)
                it = LockInterp(prog, k, q)
                if kind == 'lambda':
                    # the lambda is an entry of its own
                    k.lam = l
                    try:
                        out = run_lambda(it, f, l, frozenset())
                    except KeyError:
                        raise
                    thrown = it.exc[0]
                    ps = l['p']
                    first = ('V', ps[0]['id'], ps[0]['n']) if ps else None
                else:
                    out, thrown = it.run(f, frozenset())
                    first = ('P', 0, f.params[0]['n']) if f.params else None
                puts = [c for c in k.calls if c[0] == 'put' and is_broker(c[1])]
                gets = [c for c in k.calls if c[0] == 'get' and is_broker(c[1])]
                where = '%s::%s%s' % (short(q), f.n, '/lambda' if kind == 'lambda' else '')
                if puts:
                    nc += 1
                    rep.ob('%s/put-item' % where, all(c[2] and unptr(c[2][0]) == first for c in puts), puts[0][3], 'right-item', 'the item handed to the broker is not the one received')
                    esc = [x for x in thrown if x[1] == LOST]
                    rep.ob('%s/late-item' % where, not esc, puts[0][3], 'late-item-survived', 'an item whose origin no longer exists makes the exception of the broker leave the consumer (terminating a worker thread or dropping the reply to a client)')
                    empt = lambda st: st.facts.get(first) is False
                    ok = all(any(n == 'put' for n, a in st.cl) or empt(st) for st, _ in out)
                    rep.ob('%s/put-always' % where, ok, puts[0][3], 'item-forwarded', 'a path drops the item instead of handing it to the broker')
                if gets:
                    nc += 1
                    for st, r in out:
                        g = [a for n, a in st.cl if n == 'get']
                        if not g:
                            continue
                        rep.ob('%s/get-item' % where, r is not None and bool(g[0]) and unptr(r) == g[0][0] and not any(n == 'replaced' for n, a in st.cl), gets[0][3], 'item-forwarded', 'an item retrieved from the broker is not passed on')
    rep.floor('connections to the broker', nc, 4)
    pf = {x['n'] for q in prog.classes if short(q) == 'GCommandContainerT' for x in prog.classes[q].fields if 'shared_ptr' in x['t']}

    def is_payload(y):
        return y[0] == 'C' and y[1] == 'get_payload' or y[0] == 'F' and y[2] in pf and y[1] != THIS

    # (d) clients
    ncl = 0
    for q in sorted(prog.classes):
        if not any(short(b) == 'GBaseClientT' for b in prog.bases_of(q)) and 'Client' not in short(q):
            continue
        fs = plain(prog, q)
        send = reaches(prog, q, {'async_write', 'write', 'Send', 'MPI_Isend'})
        for f in fs:
            if not calls_in(f.body, 'process') or not calls_in(f.body, 'container_to_string'):
                continue
            ncl += 1

            fields = {x['n']: x['t'] for x in prog.classes[q].fields}
            flags = {n for n, t in fields.items() if t.replace(' ', '') in ('bool', 'std::atomic<bool>', 'std::atomic_bool')}
            tested = set()
            for g in fs:
                for x in walk(g.body):
                    if x['k'] == 'if':
                        tested |= {(y.get('n') or (y.get('f') or {}).get('n')) for y in walk(x['c']) if y['k'] == 'member'}
            inbuf = incoming(f)
            again = reads_again(prog, q, f)

            class CC(Client):
                max_states = 3000
                max_depth = 4
                nproc = 0
                bad = []
                def relevant(s, g):
                    return g.cls == q and g.n not in send
                def event(s, ev, st):
                    d = dict(st.cl)
                    if ev.kind == 'assign' and ev.lhs is not None and ev.lhs[0] == 'F' and ev.lhs[1] == THIS:
                        if ev.lhs[2] in flags:
                            d['flag', ev.lhs[2]] = str(ev.rhs[2]) if ev.rhs is not None and ev.rhs[0] == 'L' else '?'
                        elif ev.lhs[2] in inbuf:
                            d['read'] = 'cleared'
                        else:
                            return None
                        return [st.w(cl=frozenset(d.items()))]
                    if ev.kind == 'call' and not ev.name and ev.base is None:
                        return None
                    if ev.kind != 'call' or not ev.name:
                        return None
                    b = unptr(ev.base) if ev.base is not None else None
                    if b is not None and b[0] == 'F' and b[2] in flags and ev.name in ('store', '=', 'operator=', 'exchange') and ev.args:
                        d['flag', b[2]] = str(ev.args[0][2]) if ev.args[0][0] == 'L' else '?'
                    elif b is not None and b[0] == 'F' and b[2] in inbuf and ev.name in ('clear', 'consume', 'erase'):
                        d['read'] = 'cleared'
                    elif ev.name == 'process' and b is not None and b[0] == 'F':
                        s.nproc += 1
                        if d.get('p'):
                            s.bad.append(('processed-once', ev.loc, 'the item is processed twice'))
                        d.update(p=True, cmd=None, ser=False, kept=True)
                    elif ev.name == 'set_command' and ev.args:
                        d.update(cmd=en(ev.args[0]), ser=False)
                    elif ev.name == 'reset' and ev.args and en(ev.args[0]) is not None:
                        d.update(cmd=en(ev.args[0]), ser=False, kept=len(ev.args) > 1 and mentions(ev.args[1], is_payload))
                    elif ev.name == 'container_from_string':
                        d.update(ser=False)
                        d.setdefault('read', 'read')
                    elif ev.name == 'container_to_string':
                        d.update(ser=True)
                    elif ev.name in send:
                        d['sent'] = d.get('sent', 0) + 1
                        d['busy'] = tuple(sorted(k[1] for k, v in d.items() if isinstance(k, tuple) and v not in ('false', '0')))
                    else:
                        return None
                    return [st.w(cl=frozenset(d.items()))]
                def branch(s, t, truth, st, node, func):
                    if t[0] == 'B' and t[1] == '==':
                        for a, b in ((t[2], t[3]), (t[3], t[2])):
                            if a[0] == 'E' and 'payload_command' in a[1] and truth:
                                d = dict(st.cl)
                                d.setdefault('in', en(a))
                                return st.w(cl=frozenset(d.items()))
                    return st
                def may_throw(s, ev, st):
                    if ev.kind == 'call' and ev.name == 'process' and unptr(ev.base) is not None and unptr(ev.base)[0] == 'F':
                        return (PEX,)
                    return ()
            k = CC(); k.bad = []
            out, thrown = Interp(prog, k, q).run(f, frozenset())
            key = '%s::%s' % (short(q), f.n)
            esc = [x for x in thrown if x[1] == PEX]
            rep.ob('%s/failed-item' % key, not esc, f.loc, 'failed-item-returned', 'when the processing of an item fails, the client leaves its protocol loop without returning the item')
            rep.ob('%s/once' % key, not k.bad, k.bad[0][1] if k.bad else f.loc, 'processed-once', k.bad[0][2] if k.bad else '')
            for st, _ in out:
                d = dict(st.cl)
                if d.get('p'):
                    rep.ob('%s/result' % key, d.get('cmd') == 'RESULT', f.loc, 'result-command', 'a processed item is sent back with the command %s' % d.get('cmd'))
                    rep.ob('%s/payload' % key, bool(d.get('kept')), f.loc, 'item-returned', 'the item is dropped from the message before it is sent back')
                elif d.get('in') == 'NODATA':
                    rep.ob('%s/asks-again' % key, d.get('cmd') == 'GETDATA', f.loc, 'asks-again', 'a client that received no work does not ask again (command %s)' % d.get('cmd'))
                rep.ob('%s/serialised' % key, bool(d.get('ser')), f.loc, 'reply-current', 'the reply is not serialised after the last change of the command container')
                rep.ob('%s/reply' % key, d.get('sent', 0) == 1, f.loc, 'one-reply', 'a path sends %d replies for one incoming message' % d.get('sent', 0))
                rep.ob('%s/idle' % key, not (set(d.get('busy') or ()) & tested), f.loc, 'ready-for-next', 'the flag %s is still set when the reply is sent, so that the next message is refused' % ', '.join(d.get('busy') or ()))
                if inbuf and again:
                    rep.ob('%s/input-consumed' % key, d.get('read') == 'cleared', f.loc, 'input-consumed', 'the message just handled is left in the buffer to which the next one is appended')
    rep.floor('networked clients', ncl, 1)
    # (e) server sessions
    ns = 0
    for q in sorted(prog.classes):
        c = prog.classes[q]
        getf = [x['n'] for x in c.fields if 'function<' in x['t'] and 'shared_ptr' in x['t'] and x['t'].rstrip(' >').endswith('()')]
        putf = [x['n'] for x in c.fields if 'function<void' in x['t'].replace(' ', '') and 'shared_ptr' in x['t']]
        if len(getf) != 1 or len(putf) != 1 or short(q) == 'GBrokerFerryT':
            continue
        G, Pf = ('F', THIS, getf[0]), ('F', THIS, putf[0])
        for f in plain(prog, q):
            if not calls_in(f.body, 'get_command'):
                continue
            ns += 1

            class SC(Client):
                max_states = 3000
                max_depth = 4
                gets = 0
                def relevant(s, g):
                    return g.cls == q
                def event(s, ev, st):
                    if ev.kind == 'call':
                        cl = dict(st.cl)
                        if functor(ev) == Pf:
                            cl['put'] = cl.get('put', 0) + 1
                            cl['putarg'] = unptr(ev.args[0]) if ev.args else None
                        elif functor(ev) == G:
                            s.gets += 1
                            cl['got'] = cl.get('got', 0) + 1
                            cl['item'] = ('C', ev.name, ev.base, tuple(ev.args))
                            cl['have'] = None
                            cl['load'] = None
                        elif ev.name == 'reset' and ev.args and ev.args[0] and ev.args[0][0] == 'E':
                            cl['load'] = (ev.args[0][1].split('::')[-1], unptr(ev.args[1]) if len(ev.args) > 1 else None)
                            cl['ser'] = False
                        elif ev.name == 'container_to_string':
                            cl['ser'] = True
                        else:
                            return None
                        return [st.w(cl=frozenset(cl.items()))]
                    return None
                def branch(s, t, truth, st, node, func):
                    cl = dict(st.cl)
                    u = unptr(t)
                    if u is not None and u == cl.get('item'):
                        cl['have'] = truth
                        return st.w(cl=frozenset(cl.items()))
                    if u is not None and is_payload(u):
                        cl['payload'] = truth
                        return st.w(cl=frozenset(cl.items()))
                    if t[0] == 'B' and t[1] == '==':
                        for a, b in ((t[2], t[3]), (t[3], t[2])):
                            if a[0] == 'E' and 'payload_command' in a[1] and b[0] in ('C', 'V', 'F'):
                                n = a[1].split('::')[-1]
                                if truth:
                                    if cl.get('cmd') not in (None, n):
                                        return None
                                    cl['cmd'] = n
                                elif cl.get('cmd') == n:
                                    return None
                                return st.w(cl=frozenset(cl.items()))
                    return st
            k = SC()
            out, thrown = Interp(prog, k, q).run(f, frozenset())
            key = '%s::%s' % (short(q), f.n)
            seen = set()
            for st, r in out:
                d = dict(st.cl)
                cmd = d.get('cmd')
                seen.add(cmd)
                if cmd == 'RESULT':
                    if d.get('payload') is False:
                        rep.ob('%s/no-put' % key, not d.get('put'), f.loc, 'result-delivered', 'an empty payload is delivered')
                    else:
                        ok = d.get('put') == 1 and d.get('putarg') is not None and mentions(d['putarg'], is_payload)
                        rep.ob('%s/put' % key, ok, f.loc, 'result-delivered', 'a result sent by a client is delivered %s times' % d.get('put', 0))
                if cmd in ('RESULT', 'GETDATA'):
                    rep.ob('%s/next' % key, d.get('got') == 1, f.loc, 'next-item', 'a client asking for work is not given the chance of a new item')
                if d.get('got'):
                    ld = d.get('load')
                    if d.get('have') is False:
                        rep.ob('%s/nodata' % key, ld is not None and ld[0] == 'NODATA' and d.get('ser'), f.loc, 'nodata', 'a client is not told that there is no work')
                    else:
                        rep.ob('%s/compute' % key, ld is not None and ld[0] == 'COMPUTE' and ld[1] == d.get('item') and bool(d.get('ser')), f.loc, 'item-sent', 'an item taken from the broker is not sent to the client')
                    rep.ob('%s/reply' % key, r is not None and mentions(r, lambda y: y[0] == 'C' and y[1] == 'container_to_string'), f.loc, 'item-sent', 'the message carrying the item is not used as the reply')
            for x in ('RESULT', 'GETDATA'):
                rep.ob('%s/handles-%s' % (key, x), x in seen, f.loc, 'command-handled', 'the command %s is not handled' % x)
        # the reply is written
        makers = {f.n for f in plain(prog, q) if calls_in(f.body, 'get_command')}
        while True:     # functions which pass the reply on to their caller
            more = {f.n for f in plain(prog, q) if f.n not in makers and (f.d.get('ret') or 'void') != 'void' and any(calls_in(f.body, m) for m in makers)}
            if not more:
                break
            makers |= more
        send = reaches(prog, q, {'async_write', 'write'}) - makers
        for f in plain(prog, q):
            if f.n in makers or not any(calls_in(f.body, m) for m in makers):
                continue
            k = SendClient(q, makers, send)
            out, _ = Interp(prog, k, q).run(f, (0, 0, False))
            if not any(st.cl[0] for st, _ in out):
                continue
            for st, r in out:
                rep.ob('%s::%s/sends' % (short(q), f.n), st.cl[0] == 0 or (st.cl[1] == 1 and st.cl[2]), f.loc, 'item-sent', 'a path does not send the reply computed for a client (and the item in it)')
    rep.floor('server sessions', ns, 1)
    conversation(prog, rep)
    messages(prog, rep)


class SendClient(Client):
    """cl = (requests handled, replies sent, the right reply)"""
    max_states = 2000
    max_depth = 3

    def __init__(self, q, makers, send):
        self.q = q; self.makers = makers; self.send = send

    def relevant(self, f):
        return f.cls == self.q and f.n not in self.makers and f.n not in self.send

    def event(self, ev, st):
        if ev.kind != 'call' or not ev.name:
            return None
        n, m, ok = st.cl
        if ev.name in self.makers:
            return [st.w(cl=(n + 1, m, ok))]
        if ev.name in self.send:
            good = any(a is not None and mentions(a, lambda y: y[0] == 'C' and y[1] in self.makers) for a in ev.args)
            return [st.w(cl=(n, m + 1, ok or good))]
        return None


OPS = ('async_read', 'async_read_some', 'async_accept')


def stop_flags(prog, q):
    """what stopped() and its like return"""
    r = set()
    for c in [q] + list(prog.bases_of(q)):
        for f in plain(prog, c):
            if f.n in ('stopped', 'halt') and not f.params:
                for x in walk(f.body):
                    if x['k'] == 'return':
                        r |= {('F', THIS, y['n']) for y in walk(x) if y['k'] == 'member' and not y.get('fn') and y['n'] != f.n}
    return r


def conversation(prog, rep):
    """handlers of asynchronous operations: where a handler goes on reading or accepting, only errors and the end of the program stop it from doing so"""
    nh = 0
    for q in sorted(prog.classes):
        if '::Courtier::' not in q:
            continue
        fs = plain(prog, q)
        bodies = {f.n: f for f in fs}
        direct = {}
        for f in fs:
            inl = {id(y) for l in lambdas(f) for y in walk(l['b'])}
            for x in walk(f.body):
                if x['k'] == 'call' and nm(x) in OPS and id(x) not in inl:
                    direct.setdefault(f.n, set()).add(nm(x))
        if not direct:
            continue
        consumer = any(short(b) == 'GBaseConsumerT' for b in prog.bases_of(q))
        for f in fs:
            ps = [i for i, p in enumerate(f.params) if 'error_code' in p['t']]
            if not ps:
                continue
            EC = ('P', ps[0], f.params[ps[0]]['n'])

            stop = stop_flags(prog, q)

            class HC(Client):
                max_states = 2000
                max_depth = 4
                def relevant(s, g):
                    return g.cls == q and g.n not in ('process_request', 'async_process_request')
                def event(s, ev, st):
                    if ev.kind != 'call' or not ev.name:
                        return None
                    if ev.name in OPS:
                        return [st.w(cl=st.cl | {ev.name})]
                    if ev.name in ('shutdown', 'close', 'do_close', 'cancel'):
                        return [st.w(cl=st.cl | {'closed'})]
                    return None
                def branch(s, t, truth, st, node, func):
                    pol = truth
                    u = unptr(t)
                    while u is not None and u[0] == 'U' and u[1] == '!':
                        u = unptr(u[2]); pol = not pol
                    if u is None:
                        return st
                    if u == EC or u[0] == 'C' and u[2] is not None and unptr(u[2]) == EC and len(u[3]) == 0:
                        return st.w(cl=st.cl | {'error'}) if pol else st
                    if u[0] in ('C',) and (u[1] in ('stopped', 'halt') or 'stop' in u[1]) and pol:
                        return st.w(cl=st.cl | {'stopped'})
                    if u[0] == 'C' and u[1] == 'load' and u[2] is not None:
                        u = unptr(u[2])
                    if pol and u[0] == 'F' and u in stop:
                        return st.w(cl=st.cl | {'stopped'})
                    if u[0] == 'B' and u[1] == '==' and EC in (unptr(u[2]), unptr(u[3])) :
                        return st.w(cl=st.cl | {'error'}) if not pol else st
                    return st
            out, _ = Interp(prog, HC(), q).run(f, frozenset())
            ops = set().union(set(), *[st.cl & set(OPS) for st, _ in out])
            if consumer and any('async_accept' in direct.get(g.n, ()) and any(calls_in(l['b'], f.n) for l in lambdas(g)) for g in fs):
                ops.add('async_accept')
            for o in sorted(ops):
                nh += 1
                tol = {'closed', 'stopped'} | (set() if consumer and o == 'async_accept' else {'error'})
                for st, _ in out:
                    rep.ob('%s::%s/%s' % (short(q), f.n, o), o in st.cl or bool(st.cl & tol), f.loc, 'conversation-continues', 'a path without error, stop or shutdown does not continue with %s' % o)
    rep.stat('handlers continuing a conversation', nh)


def messages(prog, rep):
    """the message container holds exactly what was put into it"""
    for q in sorted(prog.classes):
        if short(q) != 'GCommandContainerT':
            continue
        flds = prog.classes[q].fields
        pay = [x['n'] for x in flds if 'shared_ptr' in x['t']]
        cmd = [x['n'] for x in flds if x['n'] not in pay]
        if len(pay) != 1 or len(cmd) != 1:
            raise AnalysisBroken('%s: members holding command and payload not identified' % q)
        PF, CF = ('F', THIS, pay[0]), ('F', THIS, cmd[0])
        for f in plain(prog, q):
            if f.n not in ('reset', 'set_command', 'process'):
                continue

            class MC(Client):
                max_states = 500
                def relevant(s, g):
                    return g.cls == q
                def event(s, ev, st):
                    d = dict(st.cl)
                    if ev.kind == 'assign' and ev.lhs is not None and ev.lhs[0] == 'F':
                        d[ev.lhs[2]] = unptr(ev.rhs)
                    elif ev.kind == 'call' and ev.name == 'process' and ev.base is not None and unptr(ev.base) == PF:
                        d['process'] = d.get('process', 0) + 1
                    elif ev.kind == 'call' and ev.name in ('reset', 'swap') and ev.base is not None and unptr(ev.base) == PF:
                        d[PF[2]] = None
                    else:
                        return None
                    return [st.w(cl=frozenset(d.items()))]
                def may_throw(s, ev, st):
                    return (PEX,) if ev.kind == 'call' and ev.name == 'process' and ev.base is not None and unptr(ev.base) == PF else ()
            out, thrown = Interp(prog, MC(), q).run(f, frozenset())
            for st, _ in out:
                d = dict(st.cl)
                where = '%s::%s' % (short(q), f.n)
                if f.n == 'process':
                    rep.ob(where + '/processes', d.get('process') == 1, f.loc, 'item-processed', 'a path does not process the item in the message')
                else:
                    P = [('P', i, p['n']) for i, p in enumerate(f.params)]
                    rep.ob(where + '/command', bool(P) and d.get(CF[2]) == P[0], f.loc, 'message-content', 'a path does not store the command')
                    if f.n == 'reset':
                        rep.ob(where + '/payload', len(P) > 1 and d.get(PF[2]) == P[1], f.loc, 'message-content', 'a path does not replace the item of an earlier message')
            if f.n == 'process':
                rep.ob('%s::process/failure' % short(q), any(x[1] == PEX for x in thrown), f.loc, 'failure-reported', 'the failure of an item is swallowed')

register('C09', run, 'lib', 'item-ownership typestate over worker loops, broker connections, networked clients and server sessions, with failing processing and vanished buffer ports as exceptional paths',
         'Every path is interpreted with "an item is held" as state; process() may throw the processing exception, the broker may refuse an item whose origin is gone.')
