"""Runs the fact extractor (gfacts, a clang LibTooling program) over the current
working tree of /repo and loads the resulting resolved program."""
import os, sys, json, zlib, subprocess, tempfile, shutil, re, glob, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class AnalysisBroken(Exception):
    pass


def ensure_tool():
    for cand in (os.path.join(VERIF, 'build'),):
        t = os.path.join(cand, 'gfacts')
        src = os.path.join(VERIF, 'tool', 'gfacts.cpp')
        if os.path.exists(t) and os.path.getmtime(t) >= os.path.getmtime(src):
            return t
    out = os.path.join(VERIF, 'build')
    p = subprocess.run([os.path.join(VERIF, 'tool', 'build.sh'), out], capture_output=True, text=True)
    if p.returncode != 0:
        raise AnalysisBroken('cannot build gfacts: ' + p.stderr[-2000:])
    return os.path.join(out, 'gfacts')


def _flags(inc_extra, debug=True):
    f = ['-include', os.path.join(VERIF, 'tool', 'prefix.hpp'), '-std=c++17', '-DGEM_DYNAMIC', '-DGEM_TESTING',
         '-I' + os.path.join(REPO, 'include'), '-w', '-ftemplate-depth=1024', '-ferror-limit=20', '-pthread',
         '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']
    if debug:
        f.append('-DDEBUG')
    for i in inc_extra:
        f.append('-I' + i)
    return f


def headers():
    r = []
    for d, _, fs in sorted(os.walk(os.path.join(REPO, 'include'))):
        if os.path.basename(d) == 'tests':
            continue
        for f in sorted(fs):
            if f.endswith('.hpp') and 'MPI' not in f:
                r.append(os.path.relpath(os.path.join(d, f), os.path.join(REPO, 'include')))
    return r


def sources(lib):
    return sorted(f for f in glob.glob(os.path.join(REPO, 'src', lib, '*.cpp')) if 'MPI' not in os.path.basename(f))


def make_shards(scope):
    """scope: 'lib' (common/hap/courtier + headers), 'all'"""
    inc = ''.join('#include "%s"\n' % h for h in headers())
    wit = '#include "%s"\n' % os.path.join(VERIF, 'tool', 'witness.inc') if os.path.exists(os.path.join(VERIF, 'tool', 'witness.inc')) else ''
    shards = []
    base = sources('common') + sources('hap') + sources('courtier')
    shards.append(('base', inc + wit, base))
    if scope == 'all':
        g = sources('geneva')
        # three balanced groups by size
        groups = [[], [], []]
        sz = [0, 0, 0]
        for f in sorted(g, key=os.path.getsize, reverse=True):
            i = sz.index(min(sz))
            groups[i].append(f)
            sz[i] += os.path.getsize(f) + 5000
        for i, gr in enumerate(groups):
            shards.append(('geneva%d' % i, '', sorted(gr)))
        shards.append(('indiv', '', sources('geneva-individuals')))
    return shards


def run_extractor(scope='all', debug=True, verbose=False):
    tool = ensure_tool()
    tmp = tempfile.mkdtemp(prefix='gfacts_')
    try:
        inc_extra = []
        if not os.path.exists(os.path.join(REPO, 'include/common/GGlobalDefines.hpp')):
            src = open(os.path.join(REPO, 'include/common/GGlobalDefines.hpp.in')).read()
            src = re.sub(r'#define GENEVA_VERSION .*', '#define GENEVA_VERSION 01100', src)
            src = re.sub(r'#define MIN_BOOST_VERSION .*', '#define MIN_BOOST_VERSION 107000', src)
            os.makedirs(os.path.join(tmp, 'gen', 'common'))
            open(os.path.join(tmp, 'gen', 'common', 'GGlobalDefines.hpp'), 'w').write(src)
            inc_extra.append(os.path.join(tmp, 'gen'))
        roots = os.path.join(REPO, 'include') + ',' + os.path.join(REPO, 'src')

        def one(name, pre, srcs):
            cpp = os.path.join(tmp, name + '.cpp')
            with open(cpp, 'w') as f:
                f.write(pre)
                for s in srcs:
                    f.write('#include "%s"\n' % s)
            out = os.path.join(tmp, name + '.jsonl')
            env = dict(os.environ, GF_IDBASE=str(1 + (zlib.crc32(name.encode()) % 2000) * 1000000))
            p = subprocess.run([tool, out, roots, cpp, '--'] + _flags(inc_extra, debug), capture_output=True, text=True, env=env)
            return name, p.returncode, p.stderr, out

        jobs = make_shards(scope)
        outs = []
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda j: one(*j), jobs))
            retry = []
            for (name, rc, err, out), j in zip(res, jobs):
                if rc == 0:
                    outs.append(out)
                else:
                    # names of different sources may clash in a unity file: analyse each source on its own
                    if j[1]:
                        retry.append((name + '_h', j[1], []))
                    for i, s in enumerate(j[2]):
                        retry.append(('%s_%d' % (name, i), '', [s]))
            if retry:
                for name, rc, err, out in ex.map(lambda j: one(*j), retry):
                    if rc != 0:
                        raise AnalysisBroken('source does not parse (%s):\n%s' % (name, err[-3000:]))
                    outs.append(out)
        recs = {}
        for o in outs:
            with open(o, encoding='utf-8', errors='replace') as f:
                for line in f:
                    k, _, js = line.partition('\t')
                    if k not in recs:
                        recs[k] = js
        return recs
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Cls:
    __slots__ = ('q', 'n', 'mode', 'file', 'line', 'bases', 'fields', 'methods', 'd', 'spec')

    def __init__(s, d):
        s.q = d['q']; s.n = d['n']; s.mode = d['mode']; s.file = d['file']; s.line = d['l']
        s.bases = d['bases']; s.fields = d['fields']; s.methods = d['methods']; s.d = d; s.spec = d.get('spec')


def _nodes(n):
    if isinstance(n, dict):
        if 'k' in n:
            yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from _nodes(v)
    elif isinstance(n, list):
        for v in n:
            yield from _nodes(v)


def _same(a, b):
    """the same expression, wherever it stands"""
    if isinstance(a, dict) and isinstance(b, dict):
        return all(_same(a.get(x), b.get(x)) for x in set(a) | set(b) if x not in ('l', 'c', 'e', 't', 'st', 'cst'))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    return a == b


def _ends(n, names):
    """the collection of X.begin() / std::begin(X)"""
    if not n or n.get('k') != 'call':
        return None
    f = n.get('f') or {}
    if n.get('n') not in names and f.get('n') not in names:
        return None
    if n.get('a'):
        return n['a'][0] if len(n['a']) == 1 and f.get('k') != 'member' else None
    return f.get('b') if f.get('k') == 'member' else None


def _path(n):
    """a name or a member of one: an expression that always denotes the same object"""
    while n and n['k'] == 'member' and not n.get('fn'):
        n = n.get('b')
    return bool(n) and n['k'] in ('this', 'ref')


def _range_loop(n, alias):
    """Rewrites a loop with an iterator that only serves to look at each element of a collection
    in place to the equivalent range-based loop."""
    i, c, s, b = n.get('i'), n.get('c'), n.get('n'), n.get('b')
    if not (i and c and s and b) or i['k'] != 'decl' or len(i['d']) != 1:
        return
    it = i['d'][0]
    if it.get('k') != 'var':
        return
    coll = _ends(it.get('i'), ('begin', 'cbegin'))
    if coll is None or c['k'] != 'bin' or c.get('op') != '!=':
        return

    def is_it(x):
        return x is not None and x.get('k') == 'ref' and x.get('id') == it['id']
    for x, y in ((c['a'], c['b']), (c['b'], c['a'])):
        if is_it(x):
            e = _ends(y, ('end', 'cend'))
            break
    else:
        return
    if e is None or not _same(coll, e):
        return
    if s['k'] != 'un' or '++' not in (s.get('op') or '') or not is_it(s.get('s')):
        return

    def deref(x):
        return (x.get('k') == 'deref' or x.get('k') == 'un' and x.get('op') == '*') and is_it(x.get('s'))
    uses = sum(1 for x in _nodes(b) if is_it(x))
    der = [x for x in _nodes(b) if deref(x)]
    if len(der) != uses:
        return
    if coll.get('k') == 'ref' and coll.get('id') in alias:
        coll = alias[coll['id']]
    first = b['b'][0] if b['k'] == 'block' and b['b'] else None
    v = None
    if uses == 1 and first and first['k'] == 'decl' and len(first['d']) == 1 and first['d'][0].get('k') == 'var' and first['d'][0].get('i') is der[0]:
        v = dict(first['d'][0])
        del v['i']
        b['b'] = b['b'][1:]
        if len(b['b']) == 1 and b['b'][0] and b['b'][0]['k'] == 'block':
            b = b['b'][0]
    else:
        v = {'id': it['id'], 'k': 'var', 'l': it.get('l'), 'n': it['n'], 'r': True, 't': 'auto &'}
        for x in der:
            l = x.get('l')
            x.clear()
            x.update({'id': it['id'], 'k': 'ref', 'l': l, 'n': it['n'], 'rk': 'local', 't': 'auto &'})
    l = n.get('l')
    n.clear()
    n.update({'k': 'forrange', 'l': l, 'r': coll, 'v': v, 'b': b})


def _outside_lambdas(n):
    if isinstance(n, dict):
        if 'k' in n:
            yield n
            if n['k'] == 'lambda':
                return
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from _outside_lambdas(v)
    elif isinstance(n, list):
        for v in n:
            yield from _outside_lambdas(v)


def normalise(body):
    """A local reference to a member stands for that member; an iterator loop over all elements for
    the range-based loop."""
    alias = {}
    for x in _nodes(body):
        if x['k'] == 'var' and '&' in (x.get('t') or '') and x.get('id') is not None and x.get('i') and _path(x['i']):
            alias[x['id']] = x['i']
    own = {}
    for i, e in alias.items():
        e0 = e
        while e0['k'] == 'member':
            e0 = e0['b']
        if e0['k'] == 'this' and e['k'] == 'member':
            own[i] = e
    if own:
        for x in _outside_lambdas(body):
            if x['k'] == 'ref' and x.get('id') in own:
                l = x.get('l')
                e = json.loads(json.dumps(own[x['id']]))
                x.clear()
                x.update(e)
                if l is not None:
                    x['l'] = l
    for n in [x for x in _nodes(body) if x['k'] == 'for']:
        if n.get('k') == 'for':
            _range_loop(n, alias)


class Func:
    __slots__ = ('q', 'n', 'mode', 'file', 'line', 'cls', 'sig', 'params', 'body', 'd', 'kind', 'key', 'inits')

    def __init__(s, d):
        s.q = d['q']; s.n = d['n']; s.mode = d['mode']; s.file = d['file']; s.line = d['l']
        s.cls = d.get('cls'); s.sig = d['sig']; s.params = d['params']; s.body = d['body']; s.d = d
        s.kind = d['kind']; s.key = d['key']; s.inits = d.get('inits', [])

    @property
    def loc(s):
        return '%s:%d' % (os.path.relpath(s.file, REPO), s.line)

    def __repr__(s):
        return '<%s %s %s>' % (s.q, s.sig, s.mode)


class Program:
    def __init__(self, recs):
        self.classes = {}      # qualified name -> Cls (pattern or plain)
        self.inst_classes = []
        self.funcs = []        # written functions (plain or pattern)
        self.inst = {}         # key -> instantiation
        self.enums = {}
        self.gvars = []
        for k, js in recs.items():
            t = k[0]
            if t == 'S':
                continue
            d = json.loads(js)
            if t == 'C':
                c = Cls(d)
                if c.mode == 'inst':
                    self.inst_classes.append(c)
                elif 'tests' in c.file.split('/'):
                    continue
                elif c.q in self.classes and c.spec:
                    pass  # specialisations keep the primary's entry
                else:
                    self.classes[c.q] = c
            elif t == 'F':
                if '"for"' in js or '"var"' in js:
                    normalise(d['body'])
                f = Func(d)
                if f.mode == 'inst':
                    self.inst[f.key] = f
                else:
                    self.funcs.append(f)
            elif t == 'E':
                self.enums[d['q']] = d
            elif t == 'V':
                self.gvars.append(d)
        self.funcs.sort(key=lambda f: (f.file, f.line))
        self.byq = {}
        for f in self.funcs:
            self.byq.setdefault(f.q, []).append(f)
        self.bycls = {}
        for f in self.funcs:
            if f.cls:
                self.bycls.setdefault(f.cls, []).append(f)
        self.derived = {}
        for c in self.classes.values():
            for b in c.bases:
                self.derived.setdefault(b['q'], []).append(c.q)

    # -- hierarchy
    def bases_of(self, q, acc=None):
        """transitive bases (qualified pattern names), nearest first"""
        r = []
        seen = set()
        todo = [q]
        while todo:
            x = todo.pop(0)
            c = self.classes.get(x)
            if not c:
                continue
            for b in c.bases:
                if b['q'] not in seen:
                    seen.add(b['q'])
                    r.append(b['q'])
                    todo.append(b['q'])
        return r

    def derived_of(self, q):
        r = []
        seen = set()
        todo = [q]
        while todo:
            x = todo.pop(0)
            for d in self.derived.get(x, []):
                if d not in seen:
                    seen.add(d)
                    r.append(d)
                    todo.append(d)
        return r

    def exc_bases(self, t):
        """a class name (possibly unqualified) and all its bases"""
        if not hasattr(self, '_exb'):
            self._exb = {}
        if t not in self._exb:
            r = {t}
            for q in self.classes:
                if q == t or q.endswith('::' + t):
                    r |= {q, *self.bases_of(q)}
            self._exb[t] = r
        return self._exb[t]

    def method(self, cls, name):
        """all written overloads of a method in class or nearest base"""
        for c in [cls] + self.bases_of(cls):
            r = [f for f in self.bycls.get(c, []) if f.n == name]
            if r:
                return r
        return []


def load(scope='all', debug=True):
    t = time.time()
    recs = run_extractor(scope, debug)
    p = Program(recs)
    p.t_extract = time.time() - t
    return p


# ---------------------------------------------------------------- tree helpers
_SKIP = ('k', 'l', 'n', 't', 'q', 'o', 'id', 'op', 'rk', 'sg', 'ta', 'tb', 'st', 'ct', 'ck', 'lt', 'bt', 'cls', 'rt', 'ft', 'cm', 'dc', 'tq')


def kids(n):
    """direct child nodes of a node, in evaluation/source order"""
    if isinstance(n, dict):
        k = n.get('k')
        if k == 'if':
            ks = ('i', 'v', 'c', 't', 'f')
        elif k == 'for':
            ks = ('i', 'c', 'b', 'n')
        elif k in ('while', 'switch', 'case'):
            ks = ('v', 'c', 'b')
        elif k == 'do':
            ks = ('b', 'c')
        elif k == 'forrange':
            ks = ('r', 'v', 'b')
        elif k == 'try':
            ks = ('b', 'h')
        elif k == 'call':
            ks = ('f', 'a')
        elif k == 'bin':
            ks = ('a', 'b')
        elif k == 'cond':
            ks = ('c', 'a', 'b')
        elif k == 'sub':
            ks = ('b', 'x')
        elif k == 'lambda':
            ks = ('p', 'b')
        elif k == 'return' or k == 'throw':
            ks = ('e',)
        elif k == 'block':
            ks = ('b',)
        elif k == 'decl':
            ks = ('d',)
        elif k == 'var':
            ks = ('i',)
        elif k in ('member',):
            ks = ('b',)
        elif k in ('deref', 'un', 'cast', 'delete'):
            ks = ('s',)
        elif k in ('ctor', 'new', 'init'):
            ks = ('a',)
        elif k == 'cinit':
            ks = ('e',)
        else:
            ks = ('i', 'c', 'a', 'b', 's', 'e', 'h')
        if k == 'lambda':
            for c in n.get('c', []):
                if isinstance(c.get('i'), dict):
                    yield c['i']
        for x in ks:
            v = n.get(x)
            if isinstance(v, dict):
                yield v
            elif isinstance(v, list):
                for y in v:
                    if isinstance(y, dict):
                        yield y


def walk(n, into_lambda=True):
    if n is None:
        return
    st = [n]
    while st:
        x = st.pop()
        yield x
        if not into_lambda and x.get('k') == 'lambda' and x is not n:
            continue
        ks = list(kids(x))
        ks.reverse()
        st.extend(ks)


def s(n):
    """compact pretty printer for expressions and statements (for reports)"""
    if n is None:
        return ''
    k = n.get('k')
    if k == 'ref':
        return n.get('n', '')
    if k == 'this':
        return 'this'
    if k == 'member':
        b = n.get('b')
        if b is None or b.get('k') == 'this':
            return ('this->' if False else '') + n['n']
        if b.get('k') == 'deref':
            return s(b['s']) + '->' + n['n']
        return s(b) + '.' + n['n']
    if k == 'call':
        return s(n.get('f')) + '(' + ', '.join(s(a) for a in n.get('a', [])) + ')'
    if k == 'bin':
        return '(' + s(n['a']) + ' ' + n['op'] + ' ' + s(n['b']) + ')'
    if k == 'un':
        return (s(n['s']) + n['op']) if n.get('post') else (n['op'] + s(n['s']))
    if k == 'deref':
        return '*' + s(n['s'])
    if k == 'lit':
        return ('"%s"' % n['v']) if n.get('lt') == 'str' else str(n['v'])
    if k == 'cast':
        return '%s_cast<%s>(%s)' % (n['ck'], n['t'], s(n['s']))
    if k == 'ctor':
        return n['t'] + '(' + ', '.join(s(a) for a in n['a']) + ')'
    if k == 'new':
        return 'new ' + n['t'] + '(' + ', '.join(s(a) for a in n['a']) + ')'
    if k == 'cond':
        return '(%s ? %s : %s)' % (s(n['c']), s(n['a']), s(n['b']))
    if k == 'sub':
        return '%s[%s]' % (s(n['b']), s(n['x']))
    if k == 'init':
        return '{' + ', '.join(s(a) for a in n['a']) + '}'
    if k == 'lambda':
        return '[lambda]'
    if k == 'return':
        return 'return ' + s(n.get('e'))
    if k == 'throw':
        return 'throw ' + s(n.get('e'))
    if k == 'decl':
        return '; '.join('%s %s = %s' % (d['t'], d['n'], s(d.get('i'))) for d in n['d'])
    return '<%s>' % k


def dump(n, ind=0, out=None):
    """readable statement dump (exploration aid)"""
    top = out is None
    out = [] if top else out
    pad = '  ' * ind
    if n is None:
        pass
    else:
        k = n['k']
        if k == 'block':
            for x in n['b']:
                dump(x, ind, out)
        elif k == 'if':
            out.append(pad + 'if ' + s(n['c']))
            dump(n['t'], ind + 1, out)
            if n.get('f'):
                out.append(pad + 'else')
                dump(n['f'], ind + 1, out)
        elif k in ('for', 'while', 'do', 'forrange', 'switch'):
            out.append(pad + k + ' ' + s(n.get('c') or n.get('r')))
            dump(n['b'], ind + 1, out)
        elif k in ('case', 'default'):
            out.append(pad + k + ' ' + s(n.get('v')))
            dump(n['b'], ind + 1, out)
        elif k == 'try':
            out.append(pad + 'try')
            dump(n['b'], ind + 1, out)
            for h in n['h']:
                out.append(pad + 'catch ' + h['t'])
                dump(h['b'], ind + 1, out)
        else:
            out.append(pad + s(n))
            for x in walk(n):
                if x.get('k') == 'lambda':
                    out.append(pad + '  [lambda:')
                    dump(x['b'], ind + 2, out)
    if top:
        return '\n'.join(out)
