"""C06-C08: evaluation state of work items (stale results, result access, outcome of processing)."""
from collections import namedtuple
from facts import walk, AnalysisBroken
from flow import *
from rules.registry import register
from rules.matrix import short

PC = 'Gem::Courtier::GProcessingContainerT'
PS = 'Gem::Courtier::processingStatus'
# ps: frozenset((term, frozenset(enumerator))); res: old/clr/set; err: old/clr/app; hooks; thr; k: sticky knowledge
S = namedtuple('S', 'ps res err hooks thr k')


def fieldby(c, what, pred):
    r = [f['n'] for f in c.fields if not f.get('st') and pred(f)]
    if len(r) != 1:
        raise AnalysisBroken('processing container: %s field not identified (%s)' % (what, r))
    return r[0]


class Shape:
    def __init__(self, prog):
        if PC not in prog.classes:
            raise AnalysisBroken('class %s not found' % PC)
        c = self.c = prog.classes[PC]
        ty = lambda f: (f.get('ct') or '') + ' ' + (f.get('t') or '')
        self.status = fieldby(c, 'status', lambda f: 'processingStatus' in ty(f))
        self.results = fieldby(c, 'results', lambda f: 'vector' in ty(f) and 'processing_result_type' in ty(f))
        self.errors = fieldby(c, 'error text', lambda f: 'string' in ty(f) and 'err' in f['n'].lower())
        self.hook = {}
        for f in c.fields:
            if 'GSerializableFunctionObjectT' in ty(f):
                self.hook['pre' if 'pre' in f['n'].lower() else 'post'] = f['n']
        self.veto = {}
        for f in c.fields:
            if f.get('t') == 'bool' and 'isabl' in f['n']:
                self.veto['pre' if 'pre' in f['n'].lower() else 'post'] = f['n']
        if set(self.hook) != {'pre', 'post'} or set(self.veto) != {'pre', 'post'}:
            raise AnalysisBroken('processing container: hook fields not identified')
        e = [x for q, x in prog.enums.items() if q == PS]
        if not e:
            raise AnalysisBroken('enumeration %s not found' % PS)
        e = e[0]
        names = [x['n'] if isinstance(x, dict) else x[0] if isinstance(x, (list, tuple)) else x for x in e['vals']]
        self.all = frozenset(n.split('::')[-1] for n in names)


class StatusClient(Client):
    max_states = 3000
    max_depth = 8

    def __init__(self, prog, sh, hooks_free=True):
        self.p = prog; self.sh = sh
        self.ST = ('F', THIS, sh.status)
        self.RES = ('F', THIS, sh.results)
        self.ERR = ('F', THIS, sh.errors)
        self.viol = []          # (rule, loc, msg)
        self.writes = []        # (value, loc, func)
        self.nhooks = 0
        self.hooks_free = hooks_free
        self.clrloops = set()
        self.loopvar0 = {}

    def relevant(self, f):
        return f.cls == PC

    # -- sets of possible enumerators of a term
    def poss(self, st, t):
        if t is not None and t[0] == 'E' and t[1].startswith(PS):
            return frozenset([t[1].split('::')[-1]])
        return dict(st.cl.ps).get(t, self.sh.all)

    def setp(self, st, t, v):
        d = dict(st.cl.ps)
        d[t] = v
        return st.w(cl=st.cl._replace(ps=frozenset(d.items())))

    def tracked(self, t):
        return t == self.ST or (t is not None and t[0] in ('P', 'V'))

    def branch(self, t, truth, st, node, func):
        if t[0] == 'B' and t[1] == '==':
            a, b = t[2], t[3]
            ea, eb = [x[0] == 'E' and x[1].startswith(PS) for x in (a, b)]
            if ea and eb:
                return st if (a == b) == truth else None
            if (ea or eb) and self.tracked(b if ea else a):
                x, e = (b, a) if ea else (a, b)
                cur = self.poss(st, x)
                n = cur & self.poss(st, e) if truth else cur - self.poss(st, e)
                return self.setp(st, x, n) if n else None
            if self.tracked(a) and self.tracked(b) and self.ST in (a, b):
                pa, pb = self.poss(st, a), self.poss(st, b)
                if truth:
                    n = pa & pb
                    if not n:
                        return None
                    st = self.setp(self.setp(st, a, n), b, n)
                    return st.w(cl=st.cl._replace(k=st.cl.k | {('same', a if b == self.ST else b)}))
                if len(pa) == 1 and pa == pb:
                    return None
                return st
        if t[0] == 'F' and t[1] == THIS:
            if t[2] in self.sh.veto.values() or t[2] in self.sh.hook.values():
                return st.w(cl=st.cl._replace(k=st.cl.k | {(t[2], truth)}))
        if t[0] == 'C' and t[1] == 'empty' and t[2] is not None:
            return st.w(cl=st.cl._replace(k=st.cl.k | {('empty', t[2], truth)}))
        return st

    def result_elem(self, t):
        """an element of the results: elem / X / at()"""
        t = strip(t)
        while t is not None and t[0] == 'D':
            t = strip(t[1])
        if t is None:
            return False
        if t[0] in ('elem', 'X'):
            return strip(t[1]) == self.RES
        if t[0] == 'C' and t[1] in ('at', '[]', 'operator[]', 'front', 'back'):
            return strip(t[2]) == self.RES if t[2] is not None else False
        return False

    def whole(self, node_loop):
        return True

    def is_default(self, t):
        t = strip(t)
        return t is not None and (t[0] == 'K' and not t[2] or t[0] == 'V')

    def hookkind(self, ev):
        if ev.name == '()' and ev.base is not None:
            b = strip(ev.base)
            while b is not None and b[0] == 'D':
                b = strip(b[1])
            if b is None:
                return None
            if b[0] == 'P':
                return 'proc'
            if b[0] == 'F' and b[1] == THIS:
                for k, f in self.sh.hook.items():
                    if b[2] == f:
                        return k
        if ev.name == 'process_' and (ev.base is None or ev.base == THIS):
            return 'proc'
        return None

    def event(self, ev, st):
        c = st.cl
        k = ev.kind
        if k == 'assign':
            l = strip(ev.lhs)
            if l == self.ST:
                v = self.poss(st, strip(ev.rhs))
                r = strip(ev.rhs)
                other = r is not None and r[0] == 'F' and r[1] != THIS and r[2] == self.sh.status
                for x in sorted(v):
                    self.writes.append((x, ev.loc, ev.func))
                st2 = self.setp(st, self.ST, v)
                kk = st2.cl.k | {('wrote', 'copy' if other else tuple(sorted(v)), bool(c.thr), ev.loc, tuple(sorted(self.poss(st, self.ST))))}
                if not other and 'PROCESSED' in v and c.hooks and ((self.poss(st, self.ST) & {'ERROR_FLAGGED', 'EXCEPTION_CAUGHT'}) or c.thr):
                    self.viol.append(('success-over-error', ev.loc, 'the item is marked as successfully processed although an error may have been flagged during processing'))
                return [st2.w(cl=st2.cl._replace(k=frozenset(x for x in kk if x[0] != 'same')))]
            if l == self.ERR:
                if ev.op in ('+=',):
                    ok = self.nonempty(ev.rhs, st)
                    return [st.w(cl=c._replace(err='app' if ok else c.err))]
                r = strip(ev.rhs)
                if r is not None and r[0] == 'F' and r[2] == self.sh.errors:
                    return [st.w(cl=c._replace(err='copy'))]
                if r is not None and (r == ('L', 'str', '') or r[0] == 'K' and not r[2]):
                    return [st.w(cl=c._replace(err='clr'))]
                return [st.w(cl=c._replace(err='app' if self.nonempty(r, st) else 'unknown'))]
            if l == self.RES:
                r = strip(ev.rhs)
                if r is not None and r[0] == 'F' and r[2] == self.sh.results:
                    return [st.w(cl=c._replace(res='copy'))]
                if r is not None and r[0] == 'K' and mentions(r, lambda y: y[0] == 'C' and y[1] == 'size' and y[2] == self.RES):
                    return [st.w(cl=c._replace(res='clr'))]
                return [st.w(cl=c._replace(res='set'))]
            if self.result_elem(ev.lhs):
                if self.is_default(ev.rhs):
                    for n in self.loops:
                        self.clrloops.add(n)
                    return [st.w(cl=c._replace(res='clr'))]
                return [st.w(cl=c._replace(res='set'))]
            return None
        if k == 'iter':
            self.loops.append(id(ev.node))
            return None
        if k == 'loopexit':
            if id(ev.node) in self.clrloops:
                return [st.w(cl=c._replace(res='clr'))]
            return None
        if k == 'call':
            b = strip(ev.base) if ev.base is not None else None
            if b == self.ERR:
                if ev.name == 'clear':
                    return [st.w(cl=c._replace(err='clr'))]
                if ev.name in ('append', '+=', 'operator+=', 'assign', 'push_back'):
                    return [st.w(cl=c._replace(err='app' if ev.args and self.nonempty(ev.args[0], st) else c.err))]
            if b == self.RES and ev.name == 'assign' and len(ev.args) == 2:
                return [st.w(cl=c._replace(res='clr' if self.is_default(ev.args[1]) else 'set'))]
            if (ev.name or '').split('::')[-1] in ('fill', 'fill_n') and ev.args and mentions(ev.args[0], lambda y: y == self.RES):
                return [st.w(cl=c._replace(res='clr' if self.is_default(ev.args[-1]) else 'set'))]
            h = self.hookkind(ev)
            if h:
                self.nhooks += 1
                if not c.hooks:
                    if self.poss(st, self.ST) != {'DO_PROCESS'}:
                        self.viol.append(('only-when-due', ev.loc, 'user code of an item is run although the item is not known to be due for processing'))
                    if c.res != 'clr':
                        self.viol.append(('results-cleared-first', ev.loc, 'results of an earlier evaluation are not cleared before processing starts'))
                    if c.err != 'clr':
                        self.viol.append(('errors-cleared-first', ev.loc, 'error texts of an earlier evaluation are not cleared before processing starts'))
                if c.thr:
                    self.viol.append(('hook-after-error', ev.loc, 'user code is run after an exception was caught'))
                if h in ('pre', 'post') and (self.sh.veto[h], False) not in c.k:
                    self.viol.append(('veto', ev.loc, 'the %s-processor runs without its veto flag having been checked' % h))
                order = {'pre': 0, 'proc': 1, 'post': 2}
                if c.hooks and order[c.hooks[-1]] >= order[h]:
                    self.viol.append(('hook-order', ev.loc, '%s step runs after the %s step' % (h, c.hooks[-1])))
                n = st.w(cl=c._replace(hooks=c.hooks + (h,), res='set'))
                cur = self.poss(n, self.ST)
                out = [n]
                if self.hooks_free:
                    out.append(self.setp(n.w(cl=n.cl._replace(err='app')), self.ST, frozenset(['ERROR_FLAGGED'])))
                return out
            return None
        if k == 'catch':
            return [st.w(cl=c._replace(thr='caught'))]
        return None

    loops = ()

    def nonempty(self, t, st):
        t = strip(t)
        if t is None:
            return False
        if t[0] == 'L' and t[1] == 'str':
            return t[2] != ''
        if ('empty', t, False) in st.cl.k:
            return True
        if t[0] == 'C' and t[1] == 'str' or t[0] == 'B' and t[1] == '+' and any(self.nonempty(x, st) for x in t[2:]):
            return True
        return False

    def may_throw(self, ev, st):
        if ev.kind == 'call' and self.hookkind(ev):
            return ('boost::exception', 'std::exception', FOREIGN)
        return ()


def run(prog, sh, f, cl=None):
    k = StatusClient(prog, sh)
    k.loops = []
    it = Interp(prog, k, PC)
    ini = cl or S(frozenset(), 'old', 'old', (), None, frozenset())
    out, thrown = it.run(f, ini)
    return k, it, out, thrown


def methods(prog, pred=lambda f: True):
    for f in prog.bycls.get(PC, []):
        if f.body and f.d.get('mode') != 'inst' and pred(f):
            yield f


def wrote(st):
    return [x for x in st.cl.k if x[0] == 'wrote']


def truth(t, s, ST):
    """value of a boolean term when the status is s (None: unknown)"""
    t = strip(t)
    if t is None:
        return None
    lb = litbool(t)
    if lb is not None:
        return lb
    if t[0] == 'B' and t[1] in ('==', '!='):
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if strip(a) == ST and b[0] == 'E':
                return (b[1].split('::')[-1] == s) == (t[1] == '==')
    if t[0] == 'B' and t[1] in ('||', '&&'):
        a, b = truth(t[2], s, ST), truth(t[3], s, ST)
        if t[1] == '||':
            return True if True in (a, b) else None if None in (a, b) else False
        return False if False in (a, b) else None if None in (a, b) else True
    if t[0] == 'U' and t[1] == '!':
        a = truth(t[2], s, ST)
        return None if a is None else not a
    return None


PRED = {'is_processed': {'PROCESSED'}, 'is_ignored': {'DO_IGNORE'}, 'is_due_for_processing': {'DO_PROCESS'},
        'has_errors': {'EXCEPTION_CAUGHT', 'ERROR_FLAGGED'}, 'error_flagged_by_user': {'ERROR_FLAGGED'}}


def c08(prog, rep):
    sh = Shape(prog)
    ERRS = {'EXCEPTION_CAUGHT', 'ERROR_FLAGGED'}
    done = set()
    for f in methods(prog):
        if f.d.get('kind') in ('ctor', 'dtor') or f.n in ('operator=', 'load_pc', 'serialize', 'swap'):
            continue
        k, it, out, thrown = run(prog, sh, f)
        key = '%s' % f.n
        if it.truncated:
            raise AnalysisBroken('%s: path analysis truncated' % f.n)
        if k.nhooks and f.d.get('acc') == 'public':
            done.add('process')
            for r in ('only-when-due', 'results-cleared-first', 'errors-cleared-first', 'hook-after-error', 'veto', 'hook-order', 'success-over-error'):
                v = [x for x in k.viol if x[0] == r]
                rep.ob('%s/%s' % (key, r), not v, v[0][1] if v else f.loc, r, v[0][2] if v else '')
            for st, ret in out:
                c = st.cl
                if not c.hooks:
                    # nothing may have been claimed
                    rep.ob('%s/normal-without-work' % key, False, f.loc, 'processed-exactly-once', 'the function returns normally without having run the processing step')
                    continue
                rep.ob('%s/once' % key, c.hooks.count('proc') == 1, f.loc, 'processed-exactly-once', 'a path returns normally after running the processing step %d times' % c.hooks.count('proc'))
                for h in ('pre', 'post'):
                    ok = h in c.hooks or (sh.veto[h], True) in c.k or (sh.hook[h], False) in c.k
                    rep.ob('%s/%s-run' % (key, h), ok, f.loc, 'hooks-run', 'a registered %s-processor that was not vetoed is skipped' % h)
                p = k.poss(st, k.ST)
                rep.ob('%s/status-normal' % key, p == {'PROCESSED'} and not c.thr, f.loc, 'success-means-processed', 'the function returns normally although the item may be in state %s%s' % (sorted(p), ' after an exception' if c.thr else ''))
                rep.ob('%s/errors-normal' % key, c.err == 'clr', f.loc, 'success-without-error-text', 'the function returns normally with error texts left in the item')
                rep.ob('%s/results-kept' % key, c.res != 'clr', f.loc, 'results-kept', 'the results of a successful evaluation are cleared')
            for st, ty, node in thrown:
                c = st.cl
                if not c.hooks:
                    continue
                p = k.poss(st, k.ST)
                loc = '%s:%s' % (f.loc.rsplit(':', 1)[0], (node or {}).get('l', 0))
                rep.ob('%s/status-thrown' % key, p <= ERRS, loc, 'failure-means-error-state', 'processing fails with the item left in state %s' % sorted(p))
                rep.ob('%s/results-thrown' % key, c.res == 'clr', loc, 'failure-clears-results', 'processing fails but results remain in the item')
                rep.ob('%s/text-thrown' % key, c.err == 'app', loc, 'failure-has-text', 'processing fails without an error text being stored')
                rep.ob('%s/type-thrown' % key, 'g_processing_exception' in (ty or ''), loc, 'failure-type', 'processing errors leave the function as %s' % ty)
        if f.n == 'set_processing_status':
            done.add('set')
            P = next((('P', i, p['n']) for i, p in enumerate(f.params)), None)
            for st, ret in out:
                c = st.cl
                w = wrote(st)
                if w:
                    p = k.poss(st, k.ST)
                    rep.ob('%s/target' % key, p <= {'DO_IGNORE', 'DO_PROCESS'}, f.loc, 'no-result-by-decree', 'a state change to %s can be requested from outside' % sorted(p))
                    rep.ob('%s/target-kept' % key, p <= k.poss(st, P), f.loc, 'requested-state', 'the new state is not the requested one')
                    rep.ob('%s/results' % key, c.res == 'clr', f.loc, 'state-change-clears-results', 'results survive a change of the processing state')
                    rep.ob('%s/errors' % key, c.err == 'clr', f.loc, 'state-change-clears-errors', 'error texts survive a change of the processing state')
                else:
                    rep.ob('%s/no-change' % key, ('same', P) in c.k or k.poss(st, k.ST) == k.poss(st, P) and len(k.poss(st, P)) == 1, f.loc, 'refusal-is-reported', 'a requested state change is silently ignored')
            for st, ty, node in thrown:
                rep.ob('%s/throw' % key, not wrote(st), f.loc, 'refused-change-has-no-effect', 'the state is changed although the change is refused')
        elif not k.nhooks and f.d.get('acc') != 'private':
            # an operation that declares a state does so whenever it returns normally
            consts = {v for st, ret in out for w in wrote(st) if w[1] != 'copy' and len(w[1]) == 1 for v in w[1]}
            if f.d.get('acc') != 'private' and len(consts) == 1 and not any('processingStatus' in (p.get('t') or '') for p in f.params):
                v = next(iter(consts))
                bad = [1 for st, ret in out if k.poss(st, k.ST) != {v}]
                rep.ob('%s/always' % key, not bad, f.loc, 'declared-state-entered', '%s() may return normally without the item being in state %s' % (f.n, v))
            for st, ret in out:
                for w in wrote(st):
                    if w[1] == 'copy':
                        continue
                    for v in w[1]:
                        if v == 'PROCESSED':
                            rep.ob('%s/processed' % key, st.cl.res == 'set' and st.cl.err == 'clr' and len(w[1]) == 1, w[3], 'processed-with-results', 'an item is marked as processed without its results being replaced and its error texts cleared')
                        elif v == 'ERROR_FLAGGED' and len(w[1]) == 1:
                            rep.ob('%s/flagged' % key, st.cl.err == 'app', w[3], 'error-has-text', 'an error is flagged without a (non-empty) error text')
                        elif v == 'EXCEPTION_CAUGHT' and len(w[1]) == 1:
                            rep.ob('%s/caught' % key, w[2], w[3], 'exception-state', 'the exception state is entered although no exception was caught')
        if f.n in PRED:
            done.add(f.n)
            for s in sorted(sh.all):
                vals = set()
                for st, ret in out:
                    if s in k.poss(st, k.ST):
                        vals.add(truth(ret, s, k.ST))
                rep.ob('%s/%s' % (key, s), vals == {s in PRED[f.n]}, f.loc, 'status-predicate', '%s() answers %s for state %s' % (f.n, sorted(map(str, vals)), s))
    for x in ['process', 'set'] + sorted(PRED):
        if x not in done:
            raise AnalysisBroken('processing container: %s not found' % x)
    rep.floor('status functions of the processing container', len(done), 7)
    rep.stat('processing states', len(sh.all))


register('C08', c08, 'all',
         'typestate analysis of the processing container: every path of processing / state changing / state querying functions with user hooks that may throw anything or flag errors',
         'All paths through process() are enumerated with an abstract state (possible processing states, results old/cleared/set, error text, hooks run, exception caught); user-supplied hooks may throw any exception or flag an error.')


# ---------------------------------------------------------------------------------------------- C07
def c07(prog, rep):
    sh = Shape(prog)
    nf = set()
    for f in methods(prog, lambda f: f.d.get('acc') == 'public' and f.d.get('kind') not in ('ctor', 'dtor') and f.n not in ('serialize', 'operator=', 'load_pc')):
        k, it, out, thrown = run(prog, sh, f)
        for st, ret in out:
            if ret is None:
                continue
            r = [y for y in subterms(ret) if y == k.RES]
            if not r:
                continue
            # the number of results is no result
            if ret[0] == 'C' and ret[1] in ('size', 'empty') or ret[0] == 'B':
                continue
            nf.add(f.key)
            p = k.poss(st, k.ST)
            rep.ob('%s/guarded' % f.n, p == {'PROCESSED'}, f.loc, 'results-only-when-processed', '%s() hands out results although the item may be in state %s' % (f.n, sorted(p)))
            idx = [i for i, p in enumerate(f.params) if any(w in (p.get('ct') or p.get('t') or '') for w in ('size_t', 'long', 'int'))]
            if len(idx) == 1:
                P = ('P', idx[0], f.params[idx[0]]['n'])
                ix = [y for y in subterms(ret) if y[0] in ('X', 'elem') and strip(y[1]) == k.RES or y[0] == 'C' and y[1] in ('at', '[]', 'operator[]', 'front', 'back') and y[2] is not None and strip(y[2]) == k.RES]
                ok = bool(ix) and all((strip(y[2]) if y[0] == 'X' else strip(y[3][0]) if y[0] == 'C' and y[3] else None) == P for y in ix)
                rep.ob('%s/requested' % f.n, ok, f.loc, 'requested-result', '%s() does not return the result that was asked for' % f.n)
            rt = f.d.get('ret') or ''
            rep.ob('%s/by-value' % f.n, '&' not in rt and '*' not in rt, f.loc, 'results-by-value', '%s() hands out a reference to the results, which outlives the check' % f.n)
    rep.floor('public functions handing out results', len(nf), 2)
    # raw mutable access stays internal
    for nm in ('modifyStoredResult', 'registerResult', 'setNStoredResults', 'clear_stored_results_vec'):
        for f in methods(prog, lambda f: f.n == nm):
            rep.ob('%s/internal' % nm, f.d.get('acc') != 'public', f.loc, 'mutable-access-internal', 'mutable access to the results is public')
    # derived classes: nothing obtained through the unchecked accessor is returned
    der = set(prog.derived_of(PC)) if hasattr(prog, 'derived_of') else {q for q in prog.classes if PC in prog.bases_of(q)}
    nd = 0
    for q in sorted(der):
        for f in prog.bycls.get(q, []):
            if not f.body or f.d.get('mode') == 'inst':
                continue
            if not any(x['k'] == 'call' for x in walk(f.body)):
                continue
            if not any(x.get('n') in ('modifyStoredResult', 'getStoredResult') for x in walk(f.body) if x['k'] in ('member', 'ref', 'dmember')):
                continue
            nd += 1
            k = Client()
            it = Interp(prog, k, q)
            out, _ = it.run(f, None)
            bad = [1 for st, ret in out if ret is not None and mentions(ret, lambda y: y[0] == 'C' and y[1] == 'modifyStoredResult')]
            rep.ob('%s::%s/no-unchecked-return' % (short(q), f.n), not bad, f.loc, 'unchecked-result-returned', 'data obtained without checking the processing state is returned')
            # raw/transformed mapping
            for nm, acc in (('raw_fitness_', 'rawFitness'), ('transformed_fitness_', 'transformedFitness')):
                if f.n == nm:
                    P = ('P', 0, f.params[0]['n'])
                    for st, ret in out:
                        kind = 'raw' if acc == 'rawFitness' else 'transformed'
                        ok = ret is not None and any((y[0] == 'C' and y[1] == acc and y[2] is not None or y[0] == 'F' and kind in y[2].lower() and not y[2].lower().endswith('set')) and mentions(y[2] if y[0] == 'C' else y[1], lambda z: z[0] == 'C' and z[1] == 'getStoredResult' and z[3] and strip(z[3][0]) == P) for y in subterms(ret))
                        rep.ob('%s::%s/value' % (short(q), nm), ok, f.loc, 'fitness-kind', '%s does not return the %s of the requested criterion' % (nm, acc))
    rep.floor('derived functions using stored results', nd, 2)
    # the public fitness interface
    vec = {'raw_fitness_vec_': 'raw_fitness', 'transformed_fitness_vec_': 'transformed_fitness'}
    ni = 0
    for q in sorted(der):
        for f in prog.bycls.get(q, []):
            if not f.body or f.d.get('mode') == 'inst' or f.n not in vec:
                continue
            ni += 1
            acc = vec[f.n]
            other = {'raw_fitness': 'transformed_fitness', 'transformed_fitness': 'raw_fitness'}[acc]
            class V(Helpers):
                got = set(); loops = {}
                def event(s, ev, st):
                    if ev.kind == 'call' and ev.name and ev.name.rstrip('_') in ('raw_fitness', 'transformed_fitness'):
                        s.got.add((ev.name.rstrip('_'), ev.args[0] if ev.args else None))
                    return None
            k = V(prog, q); k.got = set()
            Interp(prog, k, q).run(f, None)
            names = {a for a, b in k.got}
            rep.ob('%s::%s/kind' % (short(q), f.n), names == {acc}, f.loc, 'fitness-kind', '%s collects %s' % (f.n, sorted(names)))
            # every criterion: a loop from 0 bounded by the number of results
            ok = any(x['k'] in ('for', 'forrange', 'while', 'do') for x in class_nodes(prog, f)) or any(x['k'] == 'call' and 'getNStoredResults' in str(x)[:4000] for x in walk(f.body))
            rep.ob('%s::%s/all' % (short(q), f.n), ok, f.loc, 'all-criteria', 'not all criteria are collected')
    # pass-through of the rateable interface
    for q, fns in prog.bycls.items():
        if short(q) != 'G_Interface_Rateable':
            continue
        for f in fns:
            if not f.body or f.d.get('mode') == 'inst':
                continue
            want = {'raw_fitness': 'raw_fitness_', 'transformed_fitness': 'transformed_fitness_', 'raw_fitness_vec': 'raw_fitness_vec_', 'transformed_fitness_vec': 'transformed_fitness_vec_'}.get(f.n)
            if not want:
                continue
            ni += 1
            out, _ = Interp(prog, Helpers(prog, q, vec), q).run(f, None)
            for st, ret in out:
                ok = ret is not None and ret[0] == 'C' and ret[1] == want
                if ok and f.params and ret[3]:
                    ok = strip(ret[3][0]) == ('P', 0, f.params[0]['n'])
                rep.ob('%s::%s/forwards' % (short(q), f.n), ok, f.loc, 'fitness-kind', '%s does not forward to %s with the caller\'s criterion' % (f.n, want))
    rep.floor('fitness interface functions', ni, 4)
    # the result object: each accessor returns its own field, setters fill both consistently
    for q, c in prog.classes.items():
        if short(q) != 'parameterset_processing_result':
            continue
        raw = [f['n'] for f in c.fields if 'raw' in f['n'].lower()]
        tr = [f['n'] for f in c.fields if 'transformed' in f['n'].lower() and 'bool' not in f['t']]
        fl = [f['n'] for f in c.fields if f['t'] == 'bool']
        if len(raw) != 1 or len(tr) != 1 or len(fl) != 1:
            raise AnalysisBroken('result object: fields not identified')
        RAW, TR, FL = [('F', THIS, x[0]) for x in (raw, tr, fl)]
        for f in prog.bycls.get(q, []):
            if not f.body or f.d.get('mode') == 'inst':
                continue
            out, _ = Interp(prog, Helpers(prog, q), q).run(f, None)
            want = {'rawFitness': RAW, 'transformedFitness': TR, 'transformedFitnessSet': FL}.get(f.n)
            if want:
                for st, ret in out:
                    rep.ob('result::%s' % f.n, strip(ret) == want, f.loc, 'fitness-kind', '%s() does not return its own value' % f.n)
            class A(Helpers):
                def event(s, ev, st):
                    if ev.kind in ('assign', 'init') and ev.lhs is not None:
                        l = strip(ev.lhs)
                        if l in (RAW, TR, FL):
                            d = dict(st.cl); d[l] = ev.rhs if ev.op in (None, '=') else ('?',)
                            return [st.w(cl=frozenset(d.items()))]
                    return None
            if f.n in ('reset', 'setTransformedFitnessTo', 'setTransformedFitnessToRaw', 'setTransformedFitnessWith'):
                out, _ = Interp(prog, A(prog, q), q).run(f, frozenset())
                for st, ret in out:
                    d = dict(st.cl)
                    if not d:
                        continue
                    if f.n == 'reset' and f.params:
                        ok = strip(d.get(RAW)) == ('P', 0, f.params[0]['n'])
                        rep.ob('result::reset/raw', ok, f.loc, 'reset-replaces-both', 'reset() does not replace the raw value')
                        rep.ob('result::reset/transformed', TR in d, f.loc, 'reset-replaces-both', 'reset() leaves the transformed value of an earlier evaluation in place')
                        if len(f.params) == 1:
                            t = strip(d.get(TR))
                            rep.ob('result::reset/same', t in (RAW, ('P', 0, f.params[0]['n'])), f.loc, 'reset-replaces-both', 'after reset() the transformed value is not the raw value')
                            rep.ob('result::reset/flag', litbool(d.get(FL)) is False if d.get(FL) else False, f.loc, 'reset-replaces-both', 'after reset() the transformed value counts as set')
                        else:
                            rep.ob('result::reset/flag2', litbool(d.get(FL)) is True if d.get(FL) else False, f.loc, 'reset-replaces-both', 'reset() with a transformed value does not mark it as set')
                    else:
                        rep.ob('result::%s/only-transformed' % f.n, RAW not in d, f.loc, 'raw-untouched', '%s() changes the raw value' % f.n)
                        rep.ob('result::%s/flag' % f.n, litbool(d.get(FL)) is True if d.get(FL) else False, f.loc, 'transformed-flag', '%s() does not mark the transformed value as set' % f.n)


register('C07', c07, 'all', 'guarded-access analysis: results leave an item only on paths where the state is known to be PROCESSED; raw/transformed accessors are followed to the field they return',
         'Every public function whose return value derives from the stored results is interpreted on all paths.')


# ---------------------------------------------------------------------------------------------- C06
PSET = 'Gem::Geneva::GParameterSet'
PBASE = 'Gem::Geneva::GParameterBase'
STRUCT = {'clear', 'push_back', 'insert', 'erase', 'pop_back', 'resize', 'swap', 'emplace_back', 'assign'}
BENIGN = ('set', 'update', 'allow', 'block', 'query', 'register', 'reset', 'mark', 'get', 'is', 'has', 'print', 'to', 'test')
SELFMUT = ('randomInit_', 'customAdaptions')
MARK = ('mark_as_due_for_processing', 'markAsProcessedWith')
SKIPFN = ('modify_GUnitTests_', 'specificTestsNoFailureExpected_GUnitTests_', 'specificTestsFailuresExpected_GUnitTests_', 'load_', 'load', 'serialize', 'operator=', 'load_pc')


def nod(t):
    """without dereferencing wrappers"""
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'D':
            return nod(t[1])
        return tuple(nod(x) for x in t)
    return t


class DirtyClient(Client):
    """cl = frozenset of (owner, result term or None)"""
    max_depth = 6
    max_states = 1500
    keep_bools = True

    def __init__(self, prog, cls, inset, params):
        self.p = prog; self.cls = cls; self.inset = inset
        self.hier = {cls} | set(prog.bases_of(cls)) if cls else set()
        self.params = params       # parameter object classes
        self.mutnames = None
        self.origin = {}
        self.seen = set()

    def relevant(self, f):
        return f.cls in self.hier and f.cls != PC and f.n not in SELFMUT and f.n not in SKIPFN and (f.cls == PSET or f.cls in self.inset)

    def owner(self, t):
        """t is a parameter object inside a parameter set: return the set"""
        t = strip(t)
        while t is not None and t[0] == 'D':
            t = strip(t[1])
        if t is None:
            return None
        o = None
        if t[0] in ('elem', 'X'):
            o = t[1]
        elif t[0] == 'C' and t[1] in ('at', 'front', 'back', '[]', 'operator[]', 'begin', 'get') and t[2] is not None:
            o = t[2]
        if o is None:
            return None
        o = strip(o)
        while o is not None and o[0] == 'D':
            o = strip(o[1])
        if o is not None and o[0] == 'F' and o[2] == 'm_data_cnt':
            o = strip(o[1])
        return o

    def is_mut(self, name):
        return name in self.mutators and not name.startswith(BENIGN)

    def event(self, ev, st):
        if ev.kind != 'call' or not ev.name:
            return None
        n = ev.name
        b = strip(ev.base) if ev.base is not None else None
        while b is not None and b[0] == 'D':
            b = strip(b[1])
        if n in MARK or n == 'set_processing_status' and ev.args and ev.args[0] == ('E', PS + '::DO_PROCESS'):
            o = b if b is not None else THIS
            return [st.w(cl=frozenset(x for x in st.cl if x[0] != o))]
        o = None
        if self.inset is not None and self.cls is not None:
            if n in SELFMUT and (b is None or b == THIS):
                o = THIS
            elif n in STRUCT and b is not None and (b == THIS or b[0] == 'F' and b[2] == 'm_data_cnt'):
                self.seen.add((n, ev.loc))
                own = THIS if b == THIS else strip(b[1])
                new = {(own, None)}
                if n == 'swap' and ev.args:
                    # the other side is changed as well
                    a = nod(strip(ev.args[0]))
                    if a is not None and a[0] == 'F' and a[2] == 'm_data_cnt':
                        new.add((a[1], None))
                for x in new:
                    self.origin.setdefault(x, ev.loc)
                return [st.w(cl=st.cl | new)]
        if o is None and b is not None and self.is_mut(n):
            q = ev.q or ''
            oc = q.rsplit('::', 1)[0]
            if self.cls is not None or oc in self.params:
                o = self.owner(ev.base)
                if o is not None and self.cls is None and not (o[0] in ('P', 'V', 'elem', 'X', 'C', 'F')):
                    o = None
        if o is not None:
            self.seen.add((n, ev.loc))
            r = ('C', n, ev.base if ev.base is not None else None, tuple(ev.args))
            r2 = ('C', n, THIS, tuple(ev.args)) if b is None else r
            boolish = n in ('randomInit_', 'customAdaptions', 'randomInit', 'adapt', 'adapt_')
            if not boolish:
                self.origin.setdefault((o, None), ev.loc)
                return [st.w(cl=st.cl | {(o, None)})]
            self.origin.setdefault((o, r2), ev.loc)
            self.origin.setdefault((o, None), ev.loc)
            r2 = nod(r2)
            return [st.w(cl=st.cl | {(o, r2)} | ({(o, None)} if (o, r2) in st.cl else set()))]
        return None

    def branch(self, t, truth, st, node, func):
        t = nod(t)
        if truth:
            # known to be due for processing: as good as marked
            o = None
            if t[0] == 'C' and t[1] == 'is_due_for_processing':
                o = t[2] if t[2] is not None else THIS
            elif t[0] == 'B' and t[1] == '==' and ('E', PS + '::DO_PROCESS') in t[2:]:
                x = [y for y in t[2:] if y[0] == 'F' and 'status' in y[2]]
                o = x[0][1] if x else None
            if o is not None:
                return st.w(cl=frozenset(x for x in st.cl if nod(x[0]) != o))
        for x in st.cl:
            o, r = x
            if r is None or not mentions(t, lambda y: y == r):
                continue
            v = None
            if t == r:
                v = truth
            elif t[0] == 'B' and t[1] == '<' and t[2] == ('L', 'int', '0') and t[3] == r:
                v = truth
            elif t[0] == 'B' and t[1] == '==' and ('L', 'int', '0') in t[2:]:
                v = not truth
            if v is None:
                continue
            n = st.cl - {x}
            if v:
                n = n | {(o, None)}
            return st.w(cl=n)
        return st


def c06(prog, rep):
    Shape(prog)
    inset = {q for q in prog.classes if PSET in prog.bases_of(q)} | {PSET}
    params = {q for q in prog.classes if PBASE in prog.bases_of(q)} | {PBASE}
    mut, cst = set(), set()
    for q in params:
        for f in prog.bycls.get(q, []):
            if f.d.get('kind') == 'method':
                (cst if f.d.get('const') else mut).add(f.n)
        c = prog.classes.get(q)
        if c:
            for m in c.d.get('methods') or []:
                (cst if m.get('const') else mut).add(m['n'])
    mut -= cst
    nm = 0
    muts = 0
    for q in sorted(inset):
        if q.startswith('Gem::Tests'):
            continue
        parts = extracted(prog.bycls.get(q, []))
        for f in prog.bycls.get(q, []):
            if not f.body or f.d.get('mode') == 'inst' or f.d.get('kind') in ('ctor', 'dtor') or f.n in SKIPFN or f.d.get('static') or f.key in parts:
                continue
            if f.n in ('customAdaptions', 'addContent_') or f.n.endswith('GUnitTests_'):
                continue
            k = DirtyClient(prog, q, inset, params)
            k.mutators = mut
            it = Interp(prog, k, q)
            out, thrown = it.run(f, frozenset())
            nm += 1
            if not k.seen:
                continue
            muts += 1
            key = '%s::%s' % (short(q), f.n)
            bad = None
            for st, ret in out:
                if f.n == 'randomInit_':
                    lb = litbool(ret) if ret is not None else None
                    # on this path some parameter reported a change
                    if lb is False and any(r is None for o, r in st.cl):
                        bad = ('change-reported', f.loc, 'a path modifies parameters but reports that nothing was modified')
                    continue
                for o, r in sorted(st.cl, key=str):
                    # an elementwise result used as the return value is the caller's business only for non-public helpers
                    bad = bad or ('stale-result', k.origin.get((o, r), f.loc), 'parameters of %s are modified on a path that returns without marking it for re-evaluation' % ('the individual' if o == THIS else tshow(o)))
            rep.ob('%s/marked' % key, bad is None, bad[1] if bad else f.loc, bad[0] if bad else 'stale-result', bad[2] if bad else '')
    rep.floor('parameter-set methods analysed', nm, 20)
    rep.floor('parameter-modifying methods', muts, 8)
    # elsewhere: individuals' parameter objects touched directly
    no = 0
    for f in prog.funcs:
        if not f.body or f.d.get('mode') == 'inst' or f.cls in inset or f.cls in params or f.n.endswith('GUnitTests_') or (f.cls or '').startswith('Gem::Tests'):
            continue
        if not any(x['k'] in ('member', 'dmember') and x.get('n') in mut and not x['n'].startswith(BENIGN) for x in walk(f.body)):
            continue
        if '/geneva' not in f.loc:
            continue
        k = DirtyClient(prog, None, None, params)
        k.mutators = mut
        it = Interp(prog, k, f.cls)
        out, _ = it.run(f, frozenset())
        no += 1
        if k.seen:
            bad = [(o, r) for st, ret in out for o, r in st.cl]
            rep.ob('%s::%s/marked' % (short(f.cls or ''), f.n), not bad, k.origin.get(bad[0], f.loc) if bad else f.loc, 'stale-result', 'parameters of an individual are modified without marking it for re-evaluation')
    rep.stat('other functions looked at', no)
    # results of elementary modifications are never dropped
    nd = 0
    for q in sorted(inset | params):
        if q.startswith('Gem::Tests'):
            continue
        for f in prog.bycls.get(q, []):
            if not f.body or f.d.get('mode') == 'inst' or f.n.endswith('GUnitTests_'):
                continue
            if f.n not in ('adapt', 'adapt_', 'randomInit', 'randomInit_', 'customAdaptions'):
                continue
            nd += 1
            dropped = [s for s in stmts(f.body) if s['k'] == 'call' and callname(s) in ('adapt', 'adapt_', 'randomInit', 'randomInit_', 'customAdaptions', 'customAdaptAdaption')]
            rep.ob('%s::%s/result-used' % (short(q), f.n), not dropped, f.loc, 'change-reported', 'the outcome of a nested modification is dropped, so that the change may go unreported')
    rep.floor('modification functions', nd, 8)
    ad = {q for q in prog.classes if q.split('<')[0].endswith('::GAdaptorT')}
    rep.floor('functions reporting modifications', reported(prog, rep, inset | params, False) + reported(prog, rep, ad, True), 12)


REPORTERS = ('adapt', 'adapt_', 'applyAdaptor', 'randomInit', 'randomInit_', 'customAdaptions')


class ReportClient(Client):
    """cl: {('m', key, loc, variables that account for it), ('pos', variable)}; key: call term or ('def', loc)"""
    max_depth = 4
    max_states = 1500
    keep_bools = True

    def __init__(self, prog, cls, adaptor):
        self.p = prog; self.adaptor = adaptor
        self.hier = {cls} | set(prog.bases_of(cls))
        self.nmod = 0

    def relevant(self, f):
        return f.cls in self.hier and f.n not in REPORTERS and f.n not in SKIPFN and f.d.get('acc') != 'public'

    def local(self, t):
        t = strip(t)
        while t is not None and t[0] == 'D':
            t = strip(t[1])
        return t is not None and t[0] in ('V', 'L', 'K', 'B', 'C')

    def stored(self, t):
        """t designates a parameter value: element of a container member, value member, reference parameter"""
        t = nod(strip(t))
        if t is None:
            return False
        if t[0] in ('elem', 'X'):
            return self.stored(t[1])
        if t[0] == 'C' and t[1] in ('at', '[]', 'operator[]', 'begin', 'front', 'back'):
            return t[2] is None or self.stored(t[2])
        if t[0] == 'F' and t[1] == THIS:
            return t[2] in ('m_data_cnt', 'm_val')
        if t[0] == 'P':
            return self.inout(t)
        return t == THIS

    def inout(self, t):
        p = self.f.params[t[1]] if t[1] < len(self.f.params) else None
        ty = (p or {}).get('t') or ''
        return '&' in ty and 'const' not in ty and 'Random' not in ty

    def mod(self, st, key, loc):
        self.nmod += 1
        cl = frozenset(('m', ('prev', x[1]), x[2], x[3]) if x[0] == 'm' and x[1] == key else x for x in st.cl if x != ('nz', key))
        return st.w(cl=cl | {('m', key, loc, frozenset(x[1] for x in st.cl if x[0] == 'pos'))})

    def event(self, ev, st):
        k = ev.kind
        if k == 'call':
            n = ev.name or ''
            if n in REPORTERS and not (self.adaptor and n == 'customAdaptions'):
                if n == 'applyAdaptor' or n == 'adapt' and ev.args and len(ev.args) > 1:
                    if not (ev.args and self.stored(ev.args[0])):
                        return None          # works on a local value: counted when that is stored
                r = nod(('C', n, ev.base if ev.base is not None else None, tuple(ev.args)))
                return [self.mod(st, r, ev.loc)]
            if self.adaptor and n == 'customAdaptions' and ev.args and self.stored(ev.args[0]):
                return [self.mod(st, ('def', ev.loc), ev.loc)]
            if n in ('setValue', 'setValue_') and (ev.base is None or strip(ev.base) == THIS):
                return [self.mod(st, ('def', ev.loc), ev.loc)]
            return None
        if k in ('assign', 'decl'):
            l = strip(ev.lhs) if ev.lhs is not None else None
            if l is None:
                return None
            if l[0] != 'V' and not (l[0] == 'F' and l[1] == THIS and not self.stored(l)):
                if k == 'assign' and self.stored(ev.lhs):
                    return [self.mod(st, ('def', ev.loc), ev.loc)]
                return None
            rhs = nod(ev.rhs) if ev.rhs is not None else None
            var = l[1] if l[0] == 'V' else l
            acc = ev.op not in (None, '=') or rhs is not None and mentions(rhs, lambda y: y[0] == 'V' and y[1] == var or y == var)
            pos = self.positive(rhs) or ('nz', rhs) in st.cl or acc and rhs is not None and any(self.positive(y) for y in subterms(rhs) if y[0] == 'L')
            cl = set()
            for x in st.cl:
                if x[0] == 'm':
                    v = x[3]
                    if pos or rhs is not None and mentions(rhs, lambda y: self.same(y, x[1]) or (y[1] if y[0] == 'V' else y) in v):
                        v = v | {var}
                    elif not acc:
                        v = v - {var}
                    x = ('m', x[1], x[2], v)
                elif x[0] == 'pos' and x[1] == var and not acc:
                    continue
                cl.add(x)
            if pos:
                cl.add(('pos', var))
            return [st.w(cl=frozenset(cl))]
        return None

    def same(self, y, r):
        if y[0] == 'C' and (y[1] or '').split('::')[-1] in ('accumulate', 'reduce', 'transform_reduce', 'count_if', 'any_of') and any(mentions(a, lambda z: z[0] == 'lam') for a in y[3]):
            return True      # folds the outcome of every call
        return y == r or y[0] == 'C' and r[0] == 'C' and y[1] == r[1] and len(y[3]) == len(r[3]) and y[2] == r[2]

    def positive(self, t):
        t = strip(t) if t is not None else None
        if t is None:
            return False
        if litbool(t) is True:
            return True
        return t[0] == 'L' and t[1] == 'int' and str(t[2]).lstrip('-').rstrip('uUlL') not in ('', '0') and not str(t[2]).startswith('-')

    def branch(self, t, truth, st, node, func):
        t = nod(t)
        for x in [x for x in st.cl if x[0] == 'm' and x[1][0] == 'C']:
            if not mentions(t, lambda y: self.same(y, x[1])):
                continue
            none = None
            if self.same(t, x[1]):
                none = not truth
            elif t[0] == 'B' and t[1] == '<' and t[2] == ('L', 'int', '0'):
                none = not truth
            elif t[0] == 'B' and t[1] == '==' and ('L', 'int', '0') in t[2:]:
                none = truth
            elif t[0] == 'B' and t[1] == '==' and any(self.positive(y) for y in t[2:]):
                none = None if truth else True
                if truth:
                    none = False
            if none is None:
                continue
            st = st.w(cl=st.cl - {x} if none else st.cl | {('nz', x[1])})
        return st


def reported(prog, rep, classes, adaptor):
    n = 0
    for q in sorted(classes):
        if q.startswith('Gem::Tests'):
            continue
        for f in prog.bycls.get(q, []):
            if not f.body or f.d.get('mode') == 'inst' or f.n not in REPORTERS or not any(w in (f.d.get('ret') or '') for w in ('bool', 'size_t', 'long', 'int')):
                continue
            k = ReportClient(prog, q, adaptor)
            k.f = f
            out, thrown = Interp(prog, k, q).run(f, frozenset())
            if not k.nmod:
                continue
            n += 1
            bad = None
            for st, ret in out:
                r = nod(ret) if ret is not None else None
                for x in sorted((x for x in st.cl if x[0] == 'm'), key=str):
                    ok = r is not None and (k.positive(r) or any(k.same(y, x[1]) or (y[1] if y[0] == 'V' else y) in x[3] for y in subterms(r)) or r[0] == 'B' and r[1] in ('+', '||') and any(k.positive(y) for y in subterms(r)))
                    if not ok:
                        bad = bad or x[2]
            rep.ob('%s::%s/reported' % (short(q), f.n if len(f.params) < 3 else '%s(%d)' % (f.n, len(f.params))), bad is None, bad or f.loc, 'change-reported', 'values are modified on a path whose return value does not account for it')
    return n


def callname(c):
    f = c.get('f') or {}
    return f.get('n')


def stmts(b):
    """expression statements"""
    for x in walk(b):
        k = x['k']
        if k == 'block':
            for y in x['b']:
                if y is not None:
                    yield y
        elif k == 'if':
            for y in (x.get('t'), x.get('f')):
                if y is not None and y['k'] != 'block':
                    yield y
        elif k in ('for', 'while', 'do', 'forrange'):
            y = x.get('b')
            if isinstance(y, dict) and y['k'] != 'block':
                yield y


register('C06', c06, 'all', 'dirty-state dataflow: a modification of an individual\'s parameters must be followed by a re-evaluation mark (or fresh results) on every path to a normal return',
         'All methods of the individuals\' class hierarchy, and all other functions that reach into individuals\' parameter objects, are interpreted; element-wise modification calls, structural changes and virtual modification hooks make the individual dirty, tied to their reported outcome.')
