"""C16: items only ever travel between their producer, the raw queue of its port and back."""
from facts import walk, AnalysisBroken
from flow import *
from rules.registry import register
from rules.matrix import short
from rules.c_workers import plain, unptr, calls_in

LOST = 'Gem::Courtier::buffer_not_present'


def key(t):
    """term without dereferences and conversions"""
    t = unptr(t) if t is not None else None
    if t is None:
        return None
    if t[0] == 'C' and t[1] in ('conv', 'load', 'get') and not t[3] and t[2] is not None:
        return key(t[2])
    if t[0] == 'K' and t[1] == 'bool' and len(t[2]) == 1:
        return key(t[2][0])
    return t


class Rec(Client):
    """records, per path, the selected events of a function of one class; cl = (tuple of records, dict of literals)"""
    max_states = 4000
    max_depth = 6

    def __init__(self, hier, select, branches=None, throws=None, no_enter=()):
        self.hier = hier
        self.select = select
        self.branches = branches
        self.throws = throws
        self.no_enter = set(no_enter)
        self.loops = []          # records of completed loop bodies
        self.again = []          # those followed by a further iteration
        self.broke = []          # bodies left by a break
        self.exits = []          # bodies after which the loop ended

    def relevant(self, f):
        return f.cls in self.hier and f.n not in self.no_enter

    def event(self, ev, st):
        tr, seg = st.cl
        if ev.kind in ('iter', 'loopexit'):
            # close the running body of this loop
            if seg and seg[-1][0] == id(ev.node):
                self.loops.append((ev.node, seg[-1][1], tr[seg[-1][1]:]))
                if ev.extra == 'break':
                    self.broke.append((ev.node, tr[seg[-1][1]:]))
                if ev.kind == 'loopexit':
                    self.exits.append((ev.node, tr[seg[-1][1]:]))
                if ev.kind == 'iter':
                    self.again.append((ev.node, tr[seg[-1][1]:]))
                tr = tr[:seg[-1][1]] + (('body', id(ev.node)),)
                seg = seg[:-1]
            elif ev.kind == 'loopexit':
                tr = tr + (('left', id(ev.node)),)
            if ev.kind == 'iter':
                # bodies that were left by other means are forgotten
                base = tr[:-1] if tr and tr[-1] == ('body', id(ev.node)) else tr
                if ('body', id(ev.node)) in base:
                    i = base.index(('body', id(ev.node)))
                    tr = base[:i + 1]
                seg = seg + ((id(ev.node), len(tr)),)
            return [st.w(cl=(tr, seg))]
        r = self.select(ev, st)
        if r is None:
            return None
        if r == 'drop':
            return []
        if r in tr[-1:]:
            return None
        return [st.w(cl=(tr + (r,), seg))]

    def branch(self, t, truth, st, node, func):
        if self.branches is None:
            return st
        r = self.branches(t, truth, st)
        if r is None:
            return st
        tr, seg = st.cl
        if r in tr[-1:]:
            return st
        return st.w(cl=(tr + (r,), seg))

    def may_throw(self, ev, st):
        return self.throws(ev) if self.throws and ev.kind == 'call' else ()


def paths(prog, q, f, select, branches=None, throws=None, no_enter=(), args=None):
    k = Rec({q} | set(prog.bases_of(q)), select, branches, throws, no_enter)
    out, thrown = Interp(prog, k, q).run(f, ((), ()), args)
    return [(st.cl[0], r, st) for st, r in out], [(st.cl[0], ty, st) for st, ty, n in thrown], k


def run(prog, rep):
    brokers = [q for q in prog.classes if short(q) == 'GBrokerT']
    ports = [q for q in prog.classes if short(q) == 'GBufferPortT']
    if len(brokers) != 1 or len(ports) != 1:
        raise AnalysisBroken('broker or buffer port class not found')
    nport = port(prog, rep, ports[0])
    rep.floor('functions of the buffer port', nport, 4)
    broker(prog, rep, brokers[0])
    producers(prog, rep, ports[0])


def port(prog, rep, q):
    n = 0
    floc = plain(prog, q)[0].loc
    used = {'raw': set(), 'processed': set()}
    fields = {x['n'] for x in prog.classes[q].fields}
    for f in plain(prog, q):
        what, _, side = f.n.partition('_')
        if what not in ('push', 'pop') or side not in used:
            continue
        n += 1
        P = ('P', 0, f.params[0]['n'])
        timed = len(f.params) > 1

        def sel(ev, st):
            if ev.kind == 'call' and ev.name and ev.base is not None:
                b = key(ev.base)
                if b is not None and b[0] == 'F' and b[1] == THIS and b[2] in fields and ev.name.startswith(('push', 'pop')):
                    return ('queue', ev.name, b[2], tuple(key(a) for a in ev.args), ('C', ev.name, ev.base, tuple(ev.args)))
                if b == P and ev.name.startswith('mark'):
                    return ('mark', ev.name)
            return None
        out, thrown, k = paths(prog, q, f, sel)
        where = '%s::%s%s' % (short(q), f.n, '(timeout)' if timed else '')
        for tr, r, st in out:
            qs = [x for x in tr if x[0] == 'queue']
            known = st.facts.get(P)
            if what == 'push':
                if known is False:
                    rep.ob(where + '/empty', not qs, f.loc, 'queue-access', 'an empty pointer is queued')
                    continue
                ok = len(qs) == 1 and qs[0][1].startswith('push') and qs[0][3][:1] == (P,)
                rep.ob(where + '/queued', ok, f.loc, 'queue-access', 'a path does not queue the item exactly once')
                mk = [i for i, x in enumerate(tr) if x[0] == 'mark']
                qi = [i for i, x in enumerate(tr) if x[0] == 'queue']
                rep.ob(where + '/marked-first', not mk or not qi or max(mk) < min(qi), f.loc, 'owned-while-marked', 'the item is modified after it was handed to another thread through the queue')
            else:
                ok = len(qs) == 1 and qs[0][1].startswith('pop') and qs[0][3][:1] == (P,)
                rep.ob(where + '/retrieved', ok, f.loc, 'queue-access', 'a path does not retrieve exactly one item')
                mk = [i for i, x in enumerate(tr) if x[0] == 'mark']
                qi = [i for i, x in enumerate(tr) if x[0] == 'queue']
                rep.ob(where + '/marked-after', not mk or not qi or min(mk) > max(qi), f.loc, 'owned-while-marked', 'an item is modified before it was retrieved')
            if timed and qs:
                rep.ob(where + '/result', r is not None and (key(r) == key(qs[0][4]) or litbool(r) is not None and st.facts.get(key(qs[0][4])) == litbool(r)), f.loc, 'result-reported', 'the result does not tell whether the queue accepted or delivered an item')
            for x in qs:
                used[side].add(x[2])
    for s in used:
        rep.ob('%s/%s-queue' % (short(q), s), len(used[s]) == 1, floc, 'queue-access', 'the %s functions use several queues: %s' % (s, sorted(used[s])))
    rep.ob('%s/separate-queues' % short(q), not used['raw'] & used['processed'], floc, 'queue-access', 'raw and processed items share a queue')
    # the queues are different objects and the processed queue is never full
    return n


def broker(prog, rep, q):
    cls = prog.classes[q]
    maps = [x['n'] for x in cls.fields if 'iterator' not in x['t'] and ('map<' in (x.get('ct') or x['t']).replace(' ', '') or 'Map' in x['t'])]
    pos = [x['n'] for x in cls.fields if 'iterator' in x['t']]
    if len(maps) != 2:
        raise AnalysisBroken('%s: expected two collections of buffer ports, found %s' % (q, maps))
    M = {('F', THIS, m): m for m in maps}
    fs = {}
    for f in plain(prog, q):
        fs.setdefault(f.n, []).append(f)
    tag = '%s' % short(q)

    def mapacc(t):
        t = key(t)
        return M.get(t)

    def sel(ev, st):
        if ev.kind == 'assign':
            l = key(ev.lhs)
            if l is not None and l[0] == 'F' and l[1] == THIS and l[2] in pos:
                r = key(ev.rhs)
                if r is not None and r[0] == 'C' and r[1] in ('begin', 'cbegin', 'find', 'lower_bound'):
                    return ('pos', r[1], mapacc(r[2]))
                if r is not None and r[0] == 'B' and r[1] == '+':
                    return ('pos', 'next', None)
                return ('pos', '?', None)
            if l is not None and l[0] == 'X':
                for a, b in ((l[1], l[2]), (l[2], l[1])):
                    if mapacc(a):
                        return ('insert', mapacc(a), key(b), key(ev.rhs))
            if l in M:
                return ('replace', M[l])
        if ev.kind == 'call' and ev.name:
            m = mapacc(ev.base) if ev.base is not None else None
            if m and ev.name in ('clear', 'erase', 'swap', 'merge', 'extract'):
                return ('remove', m, ev.name)
            if m and ev.name in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
                a = [key(x) for x in ev.args]
                if len(a) == 1 and a[0] is not None and a[0][0] in ('C', 'K') and len(a[0][-1]) == 2:
                    a = [key(x) for x in a[0][-1]]
                return ('insert', m, a[0] if a else None, a[1] if len(a) > 1 else None)
            if ev.name in ('erase_if',) and ev.args and mapacc(ev.args[0]):
                return ('remove', mapacc(ev.args[0]), 'erase_if')
            if ev.name == 'set_port_tag':
                return ('tag', key(ev.base), key(ev.args[0]))
            if ev.base is not None and ev.name in ('pop_raw', 'push_processed', 'push_raw', 'pop_processed'):
                return ('port', ev.name, key(ev.base), tuple(key(a) for a in ev.args), ('C', ev.name, ev.base, tuple(ev.args)))
            if ev.name == 'reset' and key(ev.base) is not None and key(ev.base)[0] == 'P' and not ev.args:
                return ('emptied', key(ev.base))
            if ev.name in ('async_startProcessing', 'shutdown'):
                return ('call', ev.name, key(ev.base))
            if ev.name in ('push_back', 'emplace_back') and key(ev.base) is not None and key(ev.base)[0] == 'F':
                return ('add', key(ev.base)[2], key(ev.args[0]))
            if ev.name == 'store' and key(ev.base) is not None and key(ev.base)[0] == 'F':
                return ('set', key(ev.base)[2], key(ev.args[0]))
        if ev.kind == 'assign' and key(ev.lhs) is not None and key(ev.lhs)[0] == 'F' and key(ev.lhs)[1] == THIS:
            return ('set', key(ev.lhs)[2], key(ev.rhs))
        return None

    def br(t, truth, st):
        # the get position is compared with the end of the collection
        if t[0] == 'B' and t[1] == '==':
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                a, b = key(a), key(b)
                if b is not None and b[0] == 'C' and b[1] in ('end', 'cend') and mapacc(b[2]):
                    x = a
                    if x is not None and x[0] == 'B' and x[1] == '+':
                        x = key(x[2])
                    if x is not None and x[0] == 'F' and x[1] == THIS and x[2] in pos:
                        return ('pos', 'end' if truth else 'ok', mapacc(b[2]))
        k = key(t)
        if k is not None and k[0] == 'C' and k[1] == 'empty' and mapacc(k[2]):
            return ('empty', mapacc(k[2]), truth)
        return None

    # modifications of the two collections
    nmod = 0
    scanners = scan_functions(prog, rep, q, M, fs)
    for f in plain(prog, q):
        if f.d.get('kind') in ('ctor', 'dtor'):
            continue
        direct = [x for x in class_nodes(prog, f) if x['k'] == 'call' and (x.get('f') or {}).get('n') in ('clear', 'erase', 'erase_if', 'insert', 'emplace', 'set_port_tag', 'insert_or_assign')]
        if not direct or f.d.get('acc') not in ('public', None):
            continue
        out, thrown, k = paths(prog, q, f, sel, br, no_enter=scanners)
        if not any(x[0] in ('insert', 'remove') for tr, _, _ in out for x in tr):
            continue
        nmod += 1
        where = '%s::%s' % (tag, f.n)
        posmaps = {x[2] for tr, _, _ in out for x in tr if x[0] == 'pos' and x[1] in ('begin', 'cbegin') and x[2]}
        for tr, r, st, normal in [x + (True,) for x in out] + [x + (False,) for x in thrown]:
            ins = [x for x in tr if x[0] == 'insert']
            rem = [x for x in tr if x[0] == 'remove']
            tags = [x for x in tr if x[0] == 'tag']
            if ins:
                rep.ob(where + '/both', sorted(x[1] for x in ins) == sorted(maps), f.loc, 'ports-in-both', 'a port is not registered for both raw and processed items')
                rep.ob(where + '/same-key', len({x[2] for x in ins}) == 1 and len({x[3] for x in ins}) == 1, f.loc, 'port-identity', 'a port is registered under different ids or different ports are registered under one id')
                ok = len(tags) == 1 and tags[0][2] == ins[0][2] and tags[0][1] == ins[0][3]
                rep.ob(where + '/tagged', ok, f.loc, 'port-identity', 'a port is not told the id it is registered under')
                t0 = ins[0][2]
                rep.ob(where + '/fresh-id', t0 is not None and (t0[0] == 'C' and t0[1] in scanners), f.loc, 'port-id-unique', 'the id of a new port is not one that was checked against the ids in use')
            # position
            dirty = False
            for x in tr:
                if x[0] in ('remove', 'replace', 'insert') and posmaps and x[1] not in posmaps:
                    continue
                if x[0] in ('remove', 'replace') and x[2 if x[0] == 'remove' else 1] != 'clear':
                    dirty = True
                elif x[0] == 'insert' and normal:
                    dirty = True       # the position may be the end of what was an empty collection
                elif x[0] == 'pos':
                    dirty = False
            cleared = [x for x in rem if x[2] == 'clear']
            if (rem or ins) and not (cleared and not ins):
                rep.ob(where + '/position', not dirty, f.loc, 'position-valid', 'the position of the next port to be served may refer to a removed port when the function is left')
    rep.floor('functions changing the set of ports', nmod, 2)
    # orphan removal only removes disconnected ports
    nr = 0
    for f in plain(prog, q):
        for x in walk(f.body):
            if x['k'] == 'call' and (x.get('f') or {}).get('n') == 'erase_if':
                ls = [y for a in x['a'] if a for y in walk(a) if y['k'] == 'lambda']
                for l in ls:
                    nr += 1
                    v = [y for y in walk(l['b']) if y['k'] == 'return']
                    ok = len(v) == 1 and removes_disconnected(v[0])
                    rep.ob('%s::%s/orphans#%d' % (tag, f.n, nr), ok, (f.file, x.get('l')) if 0 else f.loc, 'connected-ports-stay', 'a port whose producer is still connected may be removed')
    # get / put
    for f in fs.get('get', []):
        out, thrown, k = paths(prog, q, f, sel, br)
        P = ('P', 0, f.params[0]['n'])
        where = '%s::get%s' % (tag, '(timeout)' if len(f.params) > 1 else '')
        for tr, r, st in out:
            ps = [i for i, x in enumerate(tr) if x[0] == 'port']
            em = [i for i, x in enumerate(tr) if x == ('emptied', P)]
            rep.ob(where + '/emptied', bool(em) and (not ps or em[0] < ps[0]), f.loc, 'no-stale-item', 'the item passed in may be mistaken for a retrieved one')
            empty = any(x[0] == 'empty' and x[2] for x in tr) or any(fv is False and key(ft) is not None and key(ft)[0] in ('F', 'V', 'C', 'K') and ('second' in str(ft) or 'ort' in str(ft)) for ft, fv in st.facts.items())
            ok = len(ps) == 1 and tr[ps[0]][1] == 'pop_raw' and tr[ps[0]][3][:1] == (P,) or (not ps and empty)
            rep.ob(where + '/raw-item', ok, f.loc, 'raw-item-delivered', 'a consumer is not handed a raw item of a port')
            if r is not None:
                b = litbool(r)
                rep.ob(where + '/result', b is not None and (not b or st.facts.get(P) is True) and (b or st.facts.get(P) is not True) or key(r) == P or len(ps) == 1 and key(r) == key(tr[ps[0]][4]), f.loc, 'result-reported', 'the result does not tell whether an item was retrieved')
    rep.floor('retrieval functions', len(fs.get('get', [])), 1)
    for f in fs.get('put', []):
        out, thrown, k = paths(prog, q, f, sel, br)
        P = ('P', 0, f.params[0]['n'])
        where = '%s::put%s' % (tag, '(timeout)' if len(f.params) > 1 else '')
        for tr, r, st in out:
            ps = [x for x in tr if x[0] == 'port']
            ok = len(ps) == 1 and ps[0][1] == 'push_processed' and ps[0][3][:1] == (P,)
            rep.ob(where + '/delivered', ok, f.loc, 'processed-item-delivered', 'a path drops a processed item without reporting it')
            if ps:
                b = ps[0][2]
                ok = b is not None and looked_up(b, P, M)
                rep.ob(where + '/own-port', ok, f.loc, 'own-port', 'a processed item is not delivered to the port whose id it carries')
            if len(f.params) > 1 and ps:
                rep.ob(where + '/result', r is not None and key(r) == key(ps[0][4]), f.loc, 'result-reported', 'the result does not tell whether the item was delivered')
        rep.ob(where + '/missing-port', any(ty == LOST for _, ty, _ in thrown), f.loc, 'missing-port-reported', 'a missing port is not reported by the corresponding exception')
    rep.floor('delivery functions', len(fs.get('put', [])), 1)
    # selection of the next port
    nsel = 0
    for f in plain(prog, q):
        if f.d.get('kind') in ('ctor', 'dtor') or f.n in scanners:
            continue
        if not any(x['k'] == 'member' and x['n'] in pos for x in walk(f.body)):
            continue
        out, thrown, k = paths(prog, q, f, sel, br, no_enter=scanners)
        if any(x[0] in ('insert', 'remove') for tr, _, _ in out for x in tr):
            continue
        if not f.d.get('ret') or 'void' == f.d.get('ret'):
            pass
        nsel += 1
        where = '%s::%s' % (tag, f.n)
        for tr, r, st in out:
            state = 'ok'
            moved = 0
            for x in tr:
                if x[0] == 'pos':
                    if x[1] == 'next':
                        state = 'maybe-end'; moved += 1
                    elif x[1] in ('end', 'ok'):
                        if state != 'ok' or x[1] == 'end':
                            state = x[1]
                    elif x[1] == 'begin':
                        state = 'ok'; moved += 1
                    else:
                        state = '?'
            rep.ob(where + '/in-range', state == 'ok', f.loc, 'position-valid', 'the position of the next port may be past the last port')
            emp = [x[2] for x in tr if x[0] == 'empty']
            isret = r is not None and mentions(r, lambda y: y[0] == 'F' and y[2] in pos)
            if isret:
                rep.ob(where + '/non-empty', False in emp, f.loc, 'position-valid', 'a port is selected without checking that there are any')
                many = any(b is not None and ft[0] == 'B' and ft[1] == '<' and mentions(ft, lambda y: y[0] == 'C' and y[1] == 'size') and b is True for ft, b in st.facts.items())
                one = any(ft[0] == 'B' and ft[1] == '<' and mentions(ft, lambda y: y[0] == 'C' and y[1] == 'size') and b is False for ft, b in st.facts.items())
                rep.ob(where + '/in-turn', bool(moved) or one, f.loc, 'ports-in-turn', 'a port is served again although others are waiting')
    rep.floor('functions selecting the next port', nsel, 1)
    # lookup by id
    # consumers
    consumers(prog, rep, q, fs, sel, tag)


def removes_disconnected(ret):
    """return not port->is_connected_to_producer()"""
    e = ret.get('s') or ret.get('e') or ret.get('v')
    neg = False
    while e is not None:
        if e['k'] == 'un' and e.get('op') == '!':
            neg = not neg
            e = e['s']
        elif e['k'] in ('paren', 'cast', 'cleanup', 'init') and e.get('s'):
            e = e['s']
        else:
            break
    if e is None:
        return False
    if e['k'] == 'call' and (e.get('f') or {}).get('n') == 'is_connected_to_producer':
        return neg
    if e['k'] == 'bin' and e.get('op') in ('==', '!='):
        for a, b in ((e['a'], e['b']), (e['b'], e['a'])):
            if a['k'] == 'call' and (a.get('f') or {}).get('n') == 'is_connected_to_producer' and b['k'] == 'lit':
                v = str(b.get('v')).lower() in ('true', '1')
                return ((e['op'] == '==') == (not v)) != neg
    return False


def looked_up(b, P, M):
    """the port b was found in one of the collections under the id carried by the item"""
    def is_id(t):
        t = key(t)
        return t is not None and t[0] == 'C' and t[1] == 'getBufferId' and key(t[2]) == P or t is not None and t[0] == 'F' and key(t[1]) == P and 'uffer' in t[2]
    if b[0] == 'F' and b[2] == 'second':
        b = key(b[1])
    if b is None:
        return False
    if b[0] == 'C' and b[1] in ('at', 'find') and key(b[2]) in M and b[3]:
        return is_id(b[3][0])
    if b[0] == 'X':
        return key(b[1]) in M and is_id(b[2]) or key(b[2]) in M and is_id(b[1])
    return False


def scan_functions(prog, rep, q, M, fs):
    """functions returning an id that is not in use; checked here, opaque elsewhere"""
    res = set()
    n = 0
    for f in plain(prog, q):
        if f.d.get('kind') in ('ctor', 'dtor') or not f.d.get('ret') or 'void' == f.d.get('ret'):
            continue
        if f.params:
            continue
        # returns an id, compares ids of registered ports
        if not any(x['k'] == 'member' and x['n'] in M.values() for x in walk(f.body)):
            continue
        if 'ID' not in f.d['ret'] and 'int' not in f.d['ret'] and 'auto' not in f.d['ret']:
            continue
        if any(x['k'] == 'call' and (x.get('f') or {}).get('n') in ('pop_raw', 'push_processed', 'set_port_tag') for x in walk(f.body)):
            continue
        n += 1
        cand = {}

        class S(Client):
            """cl = (candidate var -> collision state, last value source)
            state: free (scanned to the end) / hit / open"""
            max_states = 4000
            def relevant(s, g):
                return g.cls == q
            def event(s, ev, st):
                d = dict(st.cl)
                if ev.kind in ('assign', 'decl') and ev.lhs is not None and ev.lhs[0] == 'V':
                    if ev.rhs is not None and litbool(ev.rhs) is not None:
                        d['lit:%s' % (ev.lhs[1],)] = litbool(ev.rhs)
                    elif ev.rhs is not None and d.get('scan') is not None and d.get('cand') == ev.lhs:
                        d['scan'] = None
                    return [st.w(cl=frozenset(d.items()))]
                if ev.kind == 'assign' and key(ev.lhs) is not None and key(ev.lhs)[0] == 'F' and key(ev.lhs)[1] == THIS:
                    d['advanced'] = True
                    return [st.w(cl=frozenset(d.items()))]
                if ev.kind == 'iter' and over_map(ev.node, M):
                    d['in'] = True
                    d.pop('free', None)
                    return [st.w(cl=frozenset(d.items()))]
                if ev.kind == 'loopexit' and over_map(ev.node, M):
                    d['free'] = not d.get('hit') and ev.extra != 'break'
                    d['in'] = False
                    return [st.w(cl=frozenset(d.items()))]
                if ev.kind == 'iter' and not over_map(ev.node, M):
                    # a new attempt
                    for z in ('hit', 'free', 'advanced'):
                        d.pop(z, None)
                    return [st.w(cl=frozenset(d.items()))]
                if ev.kind == 'call' and ev.name in ('count', 'find', 'contains') and key(ev.base) in M:
                    return None
                return None
            def branch(s, t, truth, st, node, func):
                d = dict(st.cl)
                if t[0] == 'B' and t[1] == '==':
                    for a, b in ((t[2], t[3]), (t[3], t[2])):
                        a, b = key(a), key(b)
                        if a is not None and a[0] == 'F' and a[2] == 'first' and a[1][0] == 'elem':
                            if truth:
                                d['hit'] = True
                            return st.w(cl=frozenset(d.items()))
                        if a is not None and a[0] == 'C' and a[1] == 'find' and b is not None and b[0] == 'C' and b[1] in ('end', 'cend'):
                            d['free'] = bool(truth)
                            return st.w(cl=frozenset(d.items()))
                k = key(t)
                if k is not None and k[0] == 'B' and (k[1] == '<' and k[2] == ('L', 'int', '0') or k[1] == '==' and ('L', 'int', '0') in k[2:]):
                    truth2 = truth if k[1] == '<' else not truth
                    c = key(k[3] if k[2] == ('L', 'int', '0') else k[2])
                else:
                    truth2, c = truth, k
                if c is not None and c[0] == 'C' and c[1] in ('count', 'contains') and key(c[2]) in M:
                    d['free'] = not truth2
                    return st.w(cl=frozenset(d.items()))
                if t[0] == 'V' and 'lit:%s' % (t[1],) in d:
                    if d['lit:%s' % (t[1],)] != truth:
                        return None
                return st
        k = S()
        out, thrown = Interp(prog, k, q).run(f, frozenset())
        if not any('free' in dict(st.cl) or 'hit' in dict(st.cl) for st, _ in out):
            continue
        res.add(f.n)
        where = '%s::%s' % (short(q), f.n)
        for st, r in out:
            d = dict(st.cl)
            rep.ob(where + '/unused', d.get('free') is True and not d.get('hit'), f.loc, 'port-id-unique', 'an id that is in use (or was not compared with all ids in use) may be returned')
            rep.ob(where + '/advanced', bool(d.get('advanced')), f.loc, 'port-id-unique', 'the id handed out is not advanced: the search never ends when it is in use')
    rep.floor('functions choosing an id for a port', n, 1)
    return res


def over_map(n, M):
    """is this a loop over one of the collections?"""
    r = n.get('r')
    if r is None:
        r = n.get('i')
    if r is None:
        return False
    return any(x['k'] == 'member' and x['n'] in M.values() for x in walk(r))


def consumers(prog, rep, q, fs, sel, tag):
    cols = [x['n'] for x in prog.classes[q].fields if 'vector<' in x['t'].replace(' ', '') and 'Consumer' in x['t']]
    if len(cols) != 1:
        raise AnalysisBroken('%s: collection of consumers not found' % q)
    col = cols[0]
    flags = [x['n'] for x in prog.classes[q].fields if 'atomic' in x['t'] and 'bool' in x['t']]
    # the capability check
    caps = set()
    for f in plain(prog, q):
        if calls_in(f.body, 'capableOfFullReturn') and f.d.get('kind') == 'method':
            class K(Client):
                def relevant(s, g):
                    return g.cls == q and g is not f
                def event(s, ev, st):
                    d = dict(st.cl)
                    if ev.kind in ('assign', 'decl') and ev.lhs is not None and ev.lhs[0] == 'V':
                        d['v%s' % (ev.lhs[1],)] = litbool(ev.rhs) if ev.rhs is not None else None
                        return [st.w(cl=frozenset(d.items()))]
                    if ev.kind == 'loopexit':
                        return None
                    if ev.kind == 'return':
                        v = litbool(ev.rhs) if ev.rhs is not None else None
                        if v is None and ev.rhs is not None and ev.rhs[0] == 'V':
                            v = d.get('v%s' % (ev.rhs[1],))
                        d['ret'] = v
                        d['term'] = ev.rhs
                        return [st.w(cl=frozenset(d.items()))]
                    return None
                def branch(s, t, truth, st, node, func):
                    k = key(t)
                    if k is not None and k[0] == 'C' and k[1] == 'capableOfFullReturn' and k[2] is not None:
                        d = dict(st.cl)
                        if not truth:
                            d['cant'] = True
                        return st.w(cl=frozenset(d.items()))
                    return st
            out, thrown = Interp(prog, K(), q).run(f, frozenset())
            caps.add(f.n)
            for st, r in out:
                d = dict(st.cl)
                t = d.get('term')
                if d.get('ret') is None and t is not None and t[0] == 'C' and t[1] in ('all_of', 'none_of', 'any_of'):
                    rep.ob('%s::%s/all' % (tag, f.n), t[1] == 'all_of', f.loc, 'full-return-of-all', 'full return is promised although a consumer is not capable of it')
                    continue
                rep.ob('%s::%s/all' % (tag, f.n), d.get('ret') is (not d.get('cant')), f.loc, 'full-return-of-all', 'full return is promised although a consumer is not capable of it (or denied although all are)')
    rep.floor('checks for the capability of full return', len(caps), 1)
    ne = 0
    for f in plain(prog, q):
        if f.d.get('kind') != 'method':
            continue
        out, thrown, k = paths(prog, q, f, sel, no_enter=caps)
        bodies = [tr for tr, _, _ in out] + [b for _, _, b in k.loops]
        if not any(x[0] == 'add' and x[1] == col for b in bodies for x in b):
            continue
        where = '%s::%s' % (tag, f.n)
        if f.d.get('acc') not in ('public', None) and any(calls_in(g.body, f.n) for g in plain(prog, q) if g is not f):
            continue          # seen through its callers
        ne += 1
        for b in bodies:
            a = [x for x in b if x[0] == 'add' and x[1] == col]
            s = [x for x in b if x[0] == 'call' and x[1] == 'async_startProcessing']
            rep.ob(where + '/started', [x[2] for x in a] == [x[2] for x in s], f.loc, 'consumer-started', 'a consumer is registered but not started, or started but not registered')
        for tr, r, st in out:
            added = any(x[0] == 'add' and x[1] == col or x[0] == 'body' for x in tr)
            setc = [x for x in tr if x[0] == 'set' and x[2] is not None and x[2][0] == 'C' and x[2][1] in caps]
            if any(x[0] == 'add' and x[1] == col for x in tr) or (added and any(x[0] == 'set' for x in tr)):
                rep.ob(where + '/capability', len(setc) >= 1 and tr.index(setc[-1]) > max([i for i, x in enumerate(tr) if x[0] in ('add', 'body')] or [-1]), f.loc, 'full-return-of-all', 'the capability of full return is not determined after the last consumer was registered')
                on = [x for x in tr if x[0] == 'set' and x[2] == ('L', 'bool', 'true')]
                rep.ob(where + '/present', bool(on), f.loc, 'consumer-started', 'the presence of consumers is not recorded')
    rep.floor('functions enrolling consumers', ne, 1)
    nsd = 0
    for f in plain(prog, q):
        if f.d.get('kind') != 'method' or not calls_in(f.body, 'shutdown'):
            continue
        nsd += 1
        out, thrown, k = paths(prog, q, f, sel, no_enter=caps)
        where = '%s::%s' % (tag, f.n)
        lb = [(n, b) for n, _, b in k.loops if any(x[0] == 'call' and x[1] == 'shutdown' for x in b)]
        rep.ob(where + '/all', bool(lb), f.loc, 'consumer-shut-down', 'the consumers are not shut down')
        cut = [b for n, b in k.broke if any(x[0] == 'call' and x[1] == 'shutdown' for x in b)]
        rep.ob(where + '/not-cut-short', not cut, f.loc, 'consumer-shut-down', 'the loop over the consumers is left before all of them were shut down')
        for n, _, b in k.loops:
            if any(n is n2 for n2, _ in lb):
                s = [x for x in b if x[0] == 'call' and x[1] == 'shutdown']
                rep.ob(where + '/each', len(s) == 1 and mentions(s[0][2], lambda y: y == ('F', THIS, col)), f.loc, 'consumer-shut-down', 'a consumer is not shut down')
    rep.floor('functions shutting consumers down', nsd, 1)


def producers(prog, rep, pq):
    n = 0
    for q in sorted(prog.classes):
        c = prog.classes[q]
        pf = [x['n'] for x in c.fields if 'GBufferPort' in x['t'] and 'map' not in x['t'].lower()]
        if not pf or short(q) in ('GBrokerT', 'GBufferPortT'):
            continue
        F = {('F', THIS, x) for x in pf}
        for f in plain(prog, q):
            if not calls_in(f.body, 'push_raw'):
                continue
            n += 1

            def sel(ev, st):
                if ev.kind == 'call' and ev.name == 'setBufferId' and ev.args:
                    return ('id', key(ev.base), key(ev.args[0]))
                if ev.kind == 'call' and ev.name == 'push_raw':
                    return ('push', key(ev.base), key(ev.args[0]))
                return None
            out, thrown, k = paths(prog, q, f, sel)
            where = '%s::%s' % (short(q), f.n)
            P = ('P', 0, f.params[0]['n'])
            for tr, r, st in out:
                ps = [x for x in tr if x[0] == 'push']
                if st.facts.get(P) is False:
                    continue
                rep.ob(where + '/queued', len(ps) == 1 and ps[0][2] == P and ps[0][1] in F, f.loc, 'own-port', 'an item is not queued exactly once in the port of its producer')
                ids = [x for x in tr if x[0] == 'id']
                ok = bool(ids) and bool(ps) and ids[-1][1] == P and tr.index(ids[-1]) < tr.index(ps[0]) and is_tag(ids[-1][2], ps[0][1])
                rep.ob(where + '/labelled', ok, f.loc, 'own-port', 'an item is queued without carrying the id of the port it is queued in')
    rep.floor('producers', n, 1)


def is_tag(t, port):
    if t is None:
        return False
    if t[0] == 'C' and t[1] == 'getUniqueTag':
        return key(t[2]) == port
    return t[0] == 'F' and key(t[1]) == port and 'tag' in t[2].lower()


register('C16', run, 'lib', 'path-wise event-order and identity analysis of broker, buffer ports and producers',
         'All paths of the routing functions are enumerated; the identity of items, ports, ids and queues is tracked symbolically.')
