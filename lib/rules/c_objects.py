"""C01..C05: copying, comparison, serialization and cloning of objects."""
import json, os
import re
from facts import walk, kids, s as show, VERIF
from flow import *
from rules.registry import register
from rules import matrix
from rules.matrix import short, SRC
from rules import comparekernel

SPEC = os.path.join(VERIF, 'spec', 'persistent.json')

# (class, field, operation) -> reason.  Documented in DESIGN.md.
EXEMPT = {
    ('GBrokerExecutorT', 'm_gpd', '*'): 'plots of the current run are neither copied nor compared',
    ('GBrokerExecutorT', 'm_waiting_times_graph', '*'): 'plots of the current run are neither copied nor compared',
    ('GBrokerExecutorT', 'm_returned_items_graph', '*'): 'plots of the current run are neither copied nor compared',
    ('GMetaOptimizerIndividualT', 'ind_factory_', 'load'): 'the factory is a shared immutable collaborator; comparing factories is not possible',
    ('GMetaOptimizerIndividualT', 'ind_factory_', 'compare'): 'the factory is a shared immutable collaborator; comparing factories is not possible',
    ('GMetaOptimizerIndividualT', 'ind_factory_', 'serialize'): 'see load',
    ('networkData', 'data_', 'compare'): 'compare() is documented to compare the geometry only',
    ('networkData', 'initRange_', 'compare'): 'compare() is documented to compare the geometry only',
}
for _f in ('m_gpd', 'm_progressPlotter', 'm_adProbPlotter', 'm_maxSigmaPlotter', 'm_minSigmaPlotter', 'm_nChildrenPlotter', 'm_nParentPlotter', 'm_sigmaRangePlotter', 'm_sigmaSigmaPlotter'):
    EXEMPT[('GOptOptMonitorT', _f, 'cctor')] = 'the source states that progress information is not to be copied'
for _f in ('m_b_cnt', 'm_int32_cnt', 'm_d_cnt', 'm_f_cnt'):
    EXEMPT[('GParameterScan', _f, 'compare')] = 'scan items have no comparison interface'

# state which exists in some phases of a run only: one path handling it suffices
WEAK = {('GSwarmAlgorithm', f) for f in ('m_n_neighborhoods', 'm_n_neighborhood_members_cnt', 'm_neighborhood_bests_cnt', 'm_global_best_ptr', 'm_last_iteration_individuals_cnt', 'm_velocities_cnt')}

# comparison of these bases is documented to be left out
BASE_EXEMPT = {('GParameterSet', 'GProcessingContainerT')}   # the source documents that processing data are not compared

# classes outside of the persistence protocol although a base takes part in it
OWN_EXEMPT = {('G_OptimizationAlgorithm_FactoryT', 'serialize')}   # algorithm factories are never written to an archive

# concrete classes which are never stored through a base pointer
EXPORT_EXEMPT = {'parPropSpec'}

_cache = {}


def M(prog):
    k = id(prog)
    if k not in _cache:
        _cache.clear()
        _cache[k] = matrix.build(prog)
    return _cache[k]


def ops_of(ci):
    return {k: rs for k, rs in ci.r.items() if not (k == 'serialize' and 'save' in ci.r)}


def spec():
    return json.load(open(SPEC)) if os.path.exists(SPEC) else {}


def persistent(prog):
    """class -> set of persistent fields"""
    m = M(prog)
    if hasattr(prog, '_pers'):
        return prog._pers
    sp = spec()
    out = {}
    for q, ci in m.items():
        names = {f['n'] for f in ci.cls.fields if not f.get('st')}
        p = set()
        for k, rs in ops_of(ci).items():
            for r in rs:
                p |= set(r.handled_any) & names
        p |= set(sp.get(q, {}).get('fields', [])) & names
        out[q] = p
    for q, e in sp.items():
        if q not in out and q in prog.classes:
            names = {f['n'] for f in prog.classes[q].fields if not f.get('st')}
            out[q] = set(e['fields']) & names
    prog._pers = out
    return out


def floc(f):
    return f.loc


def exempt(cq, f, op):
    n = short(cq)
    return (n, f, op) in EXEMPT or (n, f, '*') in EXEMPT


def stateful(prog, q, pers, seen=()):
    """has the class (or a base) persistent fields"""
    if pers.get(q):
        return True
    c = prog.classes.get(q)
    return bool(c) and any(stateful(prog, b['q'], pers) for b in c.bases)


def base_ok(prog, q, handled, fields, pers):
    """is the persistent state of base q covered by an operation which covered the bases `handled`"""
    if short(q) in handled:
        return True
    if not stateful(prog, q, pers):
        return True
    own = pers.get(q, set())
    if not own <= fields:
        return False
    c = prog.classes.get(q)
    return all(base_ok(prog, b['q'], handled, fields, pers) for b in c.bases)


OPNAME = {'load': 'load_', 'cctor': 'copy constructor', 'assign': 'operator=', 'compare': 'compare_', 'serialize': 'serialize', 'save': 'save', 'sload': 'load (archive)'}


def completeness(prog, rep, which):
    m = M(prog)
    pers = persistent(prog)
    nops = 0
    for q, ci in m.items():
        ops = ops_of(ci)
        for op, rs in ops.items():
            if op not in which:
                continue
            for r in rs:
                nops += 1
                rep.stat('operations')
                rep.stat('functions_interpreted', r.nfuncs)
                rep.stat('normal_paths', len(r.exits))
                loc = r.func.loc
                key0 = '%s::%s' % (short(q), OPNAME[op])
                if r.truncated:
                    rep.stat('truncated_operations')
                exits = [(h, fl, fa) for h, fl, fa in r.exits if '*deleg' not in h and '*all' not in h]
                if not r.exits:
                    if r.func.body and not r.truncated:
                        rep.ob(key0 + ':returns', False, loc, 'the operation must be able to complete', 'no path reaches the end of the function normally')
                    continue
                for f in sorted(pers.get(q, ())):
                    if exempt(q, f, op):
                        rep.stat('exempt_fields')
                        continue
                    if (short(q), f) in WEAK:
                        okf = f in r.handled_any or not exits
                    else:
                        okf = all(f in h or same(fa, f) for h, fl, fa in exits)
                    rep.ob('%s:%s' % (key0, f), okf, loc, 'every persistent member is covered on every normal path',
                           'member %s is %s by %s of %s' % (f, 'not handled' if f not in r.handled_any else 'not handled on every path', OPNAME[op], short(q)))
                for kind, f, l, text in r.issues:
                    if kind in ('altered', 'wrong-source', 'overwritten', 'mispaired'):
                        ln = l if not l.endswith(':0') else loc
                        rep.ob('%s:%s:%s' % (key0, f, kind), False, ln, 'corresponding members are paired and kept unchanged', '%s %s' % (f, text))
                for b in ci.cls.bases:
                    if not stateful(prog, b['q'], pers):
                        continue
                    if op == 'compare' and (short(q), short(b['q'])) in BASE_EXEMPT:
                        continue
                    ok = all(base_ok(prog, b['q'], {x[1] for x in h if isinstance(x, tuple)}, {x for x in h if isinstance(x, str)}, pers) for h, fl, fa in exits)
                    rep.ob('%s:base %s' % (key0, short(b['q'])), ok, loc, 'the state of every base class is covered on every normal path',
                           'the base class %s is not covered by %s of %s' % (short(b['q']), OPNAME[op], short(q)))
    return nops


def same(facts, f):
    """the path is only taken when both objects agree on f"""
    for t, v in facts.items():
        if v and t[0] == 'B' and t[1] == '==':
            a, b = stripall(t[2]), stripall(t[3])
            if {a, b} == {('F', THIS, f), ('F', matrix.SRC, f)}:
                return True
    return False


def own_op(prog, rep, which, names):
    """a class which adds persistent members to a class with operation X needs an own X"""
    m = M(prog)
    pers = persistent(prog)
    for q, p in sorted(pers.items()):
        if not p:
            continue
        have = m[q].r if q in m else {}
        for op in which:
            alts = {'load': ('load',), 'compare': ('compare',), 'serialize': ('serialize', 'save')}[op]
            has_base = any(any(a in m[b].r for a in alts) for b in prog.bases_of(q) if b in m)
            if not has_base:
                continue
            if (short(q), op) in OWN_EXEMPT:
                continue
            if op == 'load' and not any(r.func.n == 'load_' for b in prog.bases_of(q) if b in m for r in m[b].r.get('load', [])):
                continue
            fields = [f for f in sorted(p) if not exempt(q, f, op)]
            if not fields:
                continue
            c = prog.classes[q]
            rep.ob('%s:own %s' % (short(q), names[op]), any(a in have for a in alts), '%s:%d' % (c.file.replace('/repo/', ''), c.line),
                   'a class that adds members to a copyable hierarchy extends the operation', '%s has members %s but no own %s' % (short(q), ', '.join(fields[:4]), names[op]))


def c01(prog, rep):
    n = completeness(prog, rep, ('load', 'cctor', 'assign'))
    own_op(prog, rep, ('load',), {'load': 'load_'})
    rep.floor('copy operations', n, 120)


def c02(prog, rep):
    """no pointer of the source object survives in the copy"""
    m = M(prog)
    pers = persistent(prog)
    n = 0
    for q, ci in m.items():
        for op in ('load', 'cctor', 'assign'):
            for r in ci.r.get(op, []):
                n += 1
                rep.stat('copy_operations')
                rep.stat('pointer_copy_sites', r.ptrsites)
                bad = {}
                for f, loc, text in r.shared:
                    bad.setdefault(f, (loc if not loc.endswith(':0') else r.func.loc, text))
                ptrs = [f for f in ci.cls.fields if not f.get('st') and matrix.is_ptr_type(f.get('ct', ''))]
                for f in sorted({f['n'] for f in ptrs} & pers.get(q, set()) | set(bad)):
                    rep.ob('%s::%s:%s' % (short(q), OPNAME[op], f), f not in bad, bad.get(f, (r.func.loc,))[0], 'pointees are duplicated by a copy, never shared',
                           'member %s of the copy refers to the object owned by the source: %s' % (f, bad.get(f, ('', ''))[1]))
    # implicit member-wise copies
    for q, p in sorted(pers.items()):
        c = prog.classes[q]
        ptrs = [f['n'] for f in c.fields if not f.get('st') and matrix.is_ptr_type(f.get('ct', '')) and f['n'] in p and not f.get('ref')]
        if not ptrs:
            continue
        ms = c.d['methods']
        cc = [x for x in ms if x.get('ctor') == 'copy']
        loc = '%s:%d' % (c.file.replace('/repo/', ''), c.line)
        implicit = (not cc and not any(x.get('ctor') == 'move' or x.get('asg') == 'move' for x in ms)) or any(x.get('dflt') and not x.get('del') for x in cc)
        if short(q) in ('GBaseClientT', 'GBrokerT', 'GProcessingContainerT') or not (m.get(q) and (m[q].r.get('load') or m[q].r.get('cctor'))):
            continue
        rep.ob('%s:memberwise' % short(q), not implicit, loc, 'classes owning objects through pointers define their copy constructor', '%s owns %s through pointers, but its copy constructor copies the pointers' % (short(q), ', '.join(ptrs)))
    # helper functions and pointer containers
    helpers(prog, rep)
    rep.floor('copy operations', n, 120)


class HelperClient(Client):
    """follows one element from source to target container"""
    max_states = 800

    def __init__(self, tgt):
        self.tgt = tgt
        self.shared = []
        self.cloned = 0

    def relevant(self, f):
        return False

    def event(self, ev, st):
        def istgt(t):
            t = strip(t) if t is not None else None
            while t is not None and t[0] in ('X', 'elem', 'F', 'D'):
                t = strip(t[1])
            while t is not None and t[0] == 'C' and t[2] is not None and t[1] in ('begin', 'end', 'at', 'back'):
                t = strip(t[2])
            return t == self.tgt
        if ev.kind == 'assign' and istgt(ev.lhs):
            if matrix.shallow(ev.rhs):
                self.shared.append((ev.loc, tshow(ev.rhs)))
            elif ev.rhs is not None and mentions(ev.rhs, lambda x: x == SRC):
                self.cloned += 1
        if ev.kind == 'call' and ev.base is not None and istgt(ev.base):
            if ev.name in ('push_back', 'emplace_back', 'insert', 'assign', 'reset', 'swap', 'push_front'):
                if any(a is not None and matrix.shallow(a) for a in ev.args):
                    self.shared.append((ev.loc, '%s(%s)' % (ev.name, ', '.join(tshow(a) for a in ev.args if a is not None))))
                elif any(a is not None and mentions(a, lambda x: x == SRC) for a in ev.args):
                    self.cloned += 1
            elif ev.args and any(a is not None and mentions(a, lambda x: x == SRC) for a in ev.args):
                self.cloned += 1
        return None


def helpers(prog, rep):
    """copy helper functions (named copy*) and the pointer containers: from the first parameter to the second / to *this"""
    n = 0
    for f in prog.funcs:
        if not f.body or f.d.get('mode') == 'inst':
            continue
        isfree = f.cls is None and f.n.startswith('copy') and len(f.params) in (2, 3) and 'shared_ptr' in ''.join(p['t'] for p in f.params)
        iscont = f.cls and short(f.cls) in ('GPtrVectorT', 'GFixedSizePriorityQueueT') and (f.d.get('cm') in ('copy', 'copy=') or f.n in ('load_', 'copyToVector', 'operator=')) and len(f.params) == 1 and not f.d.get('dflt')
        if not (isfree or iscont):
            continue
        n += 1
        tgt = ('P', 1, f.params[1]['n']) if isfree else ('F', THIS, 'm_data_cnt' if short(f.cls) == 'GPtrVectorT' else 'm_data_deq')
        c = HelperClient(tgt)
        args = [SRC] if iscont else [SRC, tgt] + [None] * (len(f.params) - 2)
        outs, thr = Interp(prog, c, f.cls).run(f, None, args=args)
        rep.stat('copy_helpers')
        key = '%s:%d' % (short(f.q), len(f.params))
        rep.ob('%s:shares' % f.q, not c.shared, c.shared[0][0] if c.shared else f.loc, 'pointees are duplicated by a copy, never shared', 'the pointer itself is stored: %s' % (c.shared[0][1] if c.shared else ''))
    rep.stat('copy_helpers', 0)
    return n


EVAL_EXEMPT = {'GCommonInterfaceT'}


def c03(prog, rep):
    n = completeness(prog, rep, ('compare',))
    own_op(prog, rep, ('compare',), {'compare': 'compare_'})
    m = M(prog)
    for q, ci in m.items():
        for r in ci.r.get('compare', []):
            if short(q) in EVAL_EXEMPT or not r.exits:
                continue
            bad = [fl for h, fl, fa in r.exits if fl == 'open']
            rep.ob('%s::compare_:evaluate' % short(q), not bad, r.func.loc, 'recorded mismatches are always evaluated', 'a path leaves compare_ of %s without evaluating the recorded differences' % short(q))
            # the token is built with the caller's expectation
            for x in walk(r.func.body):
                if x['k'] == 'var' or x['k'] == 'decl':
                    continue
            toks = [x for x in walk(r.func.body) if x['k'] in ('ctor', 'construct', 'tmp') and short(x.get('t', '')) == 'GToken']
            rep.stat('tokens', len(toks))
    rep.floor('comparison operations', n, 60)
    comparekernel.run(prog, rep)


def c04(prog, rep):
    n = completeness(prog, rep, ('serialize', 'save', 'sload'))
    own_op(prog, rep, ('serialize',), {'serialize': 'serialize'})
    m = M(prog)
    # save and load agree on the sequence of items
    for q, ci in m.items():
        if 'save' in ci.r and 'sload' in ci.r:
            a = list(dict.fromkeys(x[0] for x in ci.r['save'][0].nvp if x[0]))
            b = list(dict.fromkeys(x[0] for x in ci.r['sload'][0].nvp if x[0]))
            rep.stat('save_load_pairs')
            rep.ob('%s:save/load order' % short(q), a == b, ci.r['sload'][0].func.loc, 'writer and reader use the same sequence of items', 'save writes %s but load reads %s' % (a, b))
        for k in ('serialize', 'save', 'sload'):
            for r in ci.r.get(k, []):
                names = [x[0] for x in r.nvp if x[0]]
                rep.stat('archive_items', len(r.nvp))
    export(prog, rep)
    formats(prog, rep)
    rep.floor('serialization operations', n, 80)


MODE = {'TEXT': 'text', 'XML': 'xml', 'BINARY': 'binary'}
ARCH = re.compile(r'\b(text|xml|binary)_([io])archive\b')


class FormatClient(Client):
    """cl = set of facts about the path: ('mode', m), ('not', m), ('arch', format, direction), ('tag', t), ('target', term), ('use', term)"""
    max_states = 3000
    max_depth = 2

    def event(self, ev, st):
        if ev.kind in ('ctor', 'decl') and (ev.name or ev.rhs):
            t = ev.name if ev.kind == 'ctor' else (ev.rhs[1] if ev.rhs is not None and ev.rhs[0] == 'K' else '')
            m = ARCH.search(t or '')
            if m:
                return [st.w(cl=st.cl | {('arch', m.group(1), m.group(2))})]
        if ev.kind == 'call' and ev.name == 'make_nvp' and ev.args and ev.args[0] is not None and ev.args[0][0] == 'L':
            return [st.w(cl=st.cl | {('tag', ev.args[0][2]), ('target', strip(ev.args[1]) if len(ev.args) > 1 else None)})]
        if ev.kind == 'call' and ev.name in ('load_', 'load') and ev.args:
            return [st.w(cl=st.cl | {('use', strip(ev.args[0]))})]
        if ev.kind == 'catch':
            return [st.w(cl=st.cl | {('caught',)})]
        u = ev.rhs if ev.kind == 'assign' else ev.args[0] if ev.kind == 'call' and ev.name in ('operator=', '=') and ev.args else None
        if u is not None:
            while u[0] in ('D', 'A'):
                u = u[1]
            return [st.w(cl=st.cl | {('use', strip(u))})]
        return None

    def branch(self, t, truth, st, node, func):
        if t[0] == 'B' and t[1] == '==':
            for a in (t[2], t[3]):
                if a is not None and a[0] == 'E' and 'serializationMode' in a[1]:
                    m = a[1].split('::')[-1]
                    if truth and (('not', m) in st.cl or any(x[0] == 'mode' and x[1] != m for x in st.cl)):
                        return None
                    if not truth and ('mode', m) in st.cl:
                        return None
                    cl = st.cl | {('mode', m) if truth else ('not', m)}
                    if all(('not', x) in cl for x in MODE):
                        return None
                    return st.w(cl=cl)
        return st

    def may_throw(self, ev, st):
        if ev.kind == 'call' and ev.name == 'make_nvp' and any(x[0] == 'arch' and x[2] == 'i' for x in st.cl):
            return ('boost::archive::archive_exception', FOREIGN)
        return ()


def formats(prog, rep):
    """each serialization mode is written and read in the same format"""
    mode_at = {}
    fs = []
    for f in prog.funcs:
        if not f.body or f.d.get('mode') == 'inst':
            continue
        ix = [i for i, p in enumerate(f.params) if 'serializationMode' in p['t'] and 'function' not in p['t'] and 'std::' not in p['t']]
        if len(ix) == 1:
            mode_at.setdefault(f.n, set()).add((len(f.params), ix[0]))
        if any(x['k'] == 'decl' and any(ARCH.search(d.get('t') or '') for d in (x.get('d') or [])) for x in walk(f.body)):
            fs.append(f)
    n = 0
    tags = {}
    for f in fs:
        k = FormatClient()
        out, thrown = Interp(prog, k, f.cls).run(f, frozenset())
        key = short(f.cls) + '::' + f.n if f.cls else f.n
        moded = any('serializationMode' in p['t'] for p in f.params)
        seen = set()
        for st, r in out:
            arch = {(x[1], x[2]) for x in st.cl if x[0] == 'arch'}
            mode = [x[1] for x in st.cl if x[0] == 'mode']
            left = [m for m in MODE if ('not', m) not in st.cl]
            if moded and arch:
                m = mode[0] if mode else left[0] if len(left) == 1 else None
                rep.ob(key + ':format', m is not None and {a for a, d in arch} == {MODE[m]}, f.loc, 'each mode uses its own archive format', 'mode %s is served by %s' % (m, sorted(arch)))
                seen.add(m)
            if arch:
                n += 1
                d = {x[1] for x in arch}
                for x in st.cl:
                    if x[0] == 'tag':
                        tags.setdefault((f.cls or f.file), {}).setdefault(tuple(sorted(d))[0], set()).add(x[1])
                if 'i' in d and ('caught',) not in st.cl:
                    T = [x[1] for x in st.cl if x[0] == 'target']
                    for t in T:
                        ok = t is not None and (t[0] == 'P' or mentions(t, lambda y: y == THIS) or (r is not None and mentions(r, lambda y: y == t)) or ('use', t) in st.cl
                                                or any(x[0] == 'use' and (x[1] == t or t[0] in ('V', 'K', 'L')) for x in st.cl) or (r is not None and r[0] == t[0]))
                        rep.ob(key + ':result', ok, f.loc, 'what was read is what is delivered', 'the object read is neither returned nor loaded')
        if moded:
            for m in MODE:
                rep.ob(key + ':handles-' + m, m in seen, f.loc, 'each mode uses its own archive format', 'mode %s is not handled' % m)
        if any(x[0] == 'arch' and x[2] == 'i' for st, _ in out for x in st.cl):
            quiet = [1 for st, r in out if ('caught',) in st.cl and (r is None or r[0] in ('V', 'P'))]
            rep.ob(key + ':failure', not quiet, f.loc, 'unreadable input is reported', 'a failure to read the input is swallowed')
    for g, d in sorted(tags.items()):
        if 'i' in d and 'o' in d:
            rep.ob('%s:tags' % short(g), d['i'] == d['o'], g, 'reader and writer use the same names', 'written as %s, read as %s' % (sorted(d['o']), sorted(d['i'])))
    # the mode asked for is the mode used
    for f in prog.funcs:
        if not f.body or f.d.get('mode') == 'inst':
            continue
        ix = [i for i, p in enumerate(f.params) if 'serializationMode' in p['t'] and 'function' not in p['t'] and 'std::' not in p['t']]
        if len(ix) != 1:
            continue
        pid = f.params[ix[0]].get('id')
        pn = f.params[ix[0]]['n']
        for x in walk(f.body):
            if x['k'] != 'call':
                continue
            cn = (x.get('f') or {}).get('n')
            for np_, i in mode_at.get(cn, ()):
                if len(x.get('a') or []) == np_:
                    a = x['a'][i]
                    ok = any(y['k'] == 'ref' and y.get('n') == pn for y in walk(a))
                    rep.ob('%s:passes-mode:%s' % (short(f.q), cn), ok, '%s:%s' % (f.file, x.get('l')), 'the mode asked for is the mode used', '%s calls %s with another mode than requested' % (f.n, cn))
    rep.floor('conversion paths', n, 6)


def export(prog, rep):
    key, impl = {}, {}
    for g in prog.gvars.values() if isinstance(prog.gvars, dict) else prog.gvars:
        g = g if isinstance(g, dict) else g.d
        if 'gfacts_export_key' in g['q']:
            key[short(g['t'])] = g
        if 'gfacts_export_impl' in g['q']:
            impl[short(g['t'])] = g
    rep.stat('exported_types', len(key))
    for q, c in sorted(prog.classes.items()):
        if c.d.get('abs') or c.d.get('mode') == 'inst' or short(q) in EXPORT_EXEMPT:
            continue
        if not any(b.endswith(('::GCommonInterfaceT', '::GObject')) for b in prog.bases_of(q)):
            continue
        loc = '%s:%d' % (c.file.replace('/repo/', ''), c.line)
        n = short(q)
        alias = {n, n[:-1] if n.endswith('T') else n}
        rep.ob('%s:export' % n, bool(alias & set(key)) and bool(alias & set(impl)), loc, 'concrete polymorphic classes are registered with the archives', '%s cannot be written through a pointer to its base: class is not exported (%s)' % (n, 'no key' if not alias & set(key) else 'no implementation'))


class CloneClient(Helpers):
    pass


def c05(prog, rep):
    """clone() creates an independent object of the same dynamic type, as a copy of *this"""
    n = 0
    have = set()
    for f in prog.funcs:
        if f.n not in ('clone_', 'clone') or not f.body or not f.cls or f.d.get('mode') == 'inst':
            continue
        have.add(f.cls)
        n += 1
        outs, thr = Interp(prog, CloneClient(prog, f.cls), f.cls).run(f, None)
        if not outs and short(f.cls) == 'GFactoryT':
            rep.stat('throwing_defaults')
            continue
        rep.stat('clone_functions')
        rep.stat('paths', len(outs))
        for st, t in outs:
            rep.ob('%s::%s' % (short(f.cls), f.n), cloned(t, f), f.loc, 'clone returns a new object of its own type, copied from *this', 'returns %s' % (tshow(t) if t is not None else 'nothing'))
    for q, c in sorted(prog.classes.items()):
        if c.d.get('abs') or c.d.get('mode') == 'inst':
            continue
        bs = prog.bases_of(q)
        virt = [b for b in bs if b in prog.classes and short(b) != 'GFactoryT' and any(x['n'] == 'clone_' and x.get('virt') or x['n'] == 'clone' and x.get('pure') for x in prog.classes[b].d['methods'])]
        if not virt:
            continue
        rep.stat('concrete_classes')
        rep.ob('%s:own clone' % short(q), q in have, '%s:%d' % (c.file.replace('/repo/', ''), c.line), 'every concrete class defines its own clone function', '%s inherits the clone function of a base class, so that clones are sliced' % short(q))
    rep.floor('clone functions', n, 60)


def cloned(t, f):
    t = strip(t) if t is not None else None
    if t is None:
        return False
    if t[0] in ('N', 'K') and len(t[2]) == 1:
        a = strip(t[2][0]) if t[2][0] is not None else None
        if t[0] == 'N':
            return short(t[1].rstrip('* ')) == short(f.cls) and a == THIS
        # smart pointer around the new object
        return cloned(t[2][0], f)
    if t[0] == 'N' and len(t[2]) == 2:
        return False
    if t[0] == 'C':
        if t[1] in ('clone_', 'clone') and (t[2] is None or strip(t[2]) == THIS):
            return True
        if t[1] in ('convertSmartPointer', 'dynamic_pointer_cast', 'static_pointer_cast', 'move'):
            return any(a is not None and cloned(a, f) for a in t[3])
        if t[1] in ('make_shared', 'make_unique'):
            return len(t[3]) >= 1 and strip(t[3][0]) == THIS
    return False


register('C01', c01, 'all', 'on every normal path of load_, copy constructor and assignment operator every persistent member and every base with state is taken over unchanged from the same member of the source',
         'Path-sensitive abstract interpretation of every copy operation of every class that takes part in the copy/compare/serialize protocol; obligations: (operation, persistent member) and (operation, base class).',
         assumptions=['a member is persistent when at least one of copy, compare and serialize handles it, or when spec/persistent.json lists it'])
register('C02', c02, 'all', 'no copy operation stores a pointer (or an element of a pointer container) of the source in the copy; owning classes do not rely on member-wise copying',
         'Value tracking through all copy operations and copy helper functions: the term stored in each pointer-typed member is inspected; obligations: (operation, pointer member), (class, implicit copy), (copy helper).')
register('C03', c03, 'all', 'compare_ pairs every persistent member with itself and every base on all paths and evaluates the result; the comparison kernel decides each expectation by its truth table',
         'Path-sensitive interpretation of every compare_ plus exhaustive symbolic case analysis of the comparison kernel (all overloads x expectations x operand relations).')
register('C04', c04, 'all', 'serialize/save/load cover every persistent member and base on all paths; reader and writer agree; concrete polymorphic classes are exported',
         'Interpretation of all archive functions (both directions); obligations: (function, member), (function, base), (save/load pair), (class, export registration).')
register('C05', c05, 'all', 'clone_ returns new Self(*this) on all paths and no concrete class inherits it',
         'All clone functions are interpreted and the returned term is matched; all concrete classes below a cloneable base are enumerated.')
