"""Member coverage of copying, comparison and serialization (C01..C04)."""
import re
from facts import walk, kids, s as show
from flow import *

SRC = ('src',)
CONVERT = {'g_convert_and_compare', 'g_ptr_conversion', 'g_convert_base', 'conversion_cast'}


def short(n):
    """class name without namespaces and template arguments"""
    n = (n or '').replace('const ', '').replace('typename ', '').replace('struct ', '').replace('class ', '').strip(' &*:')
    out = []
    d = 0
    for ch in n:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out.append(ch)
    n = ''.join(out).strip(' :&*')
    return n.split('::')[-1]


def field_of(t, owner):
    """F(owner, f) possibly under element access -> f"""
    t = strip(t) if t is not None else None
    while t is not None:
        if t[0] == 'F' and t[1] == owner:
            return t[2]
        if t[0] in ('X', 'F'):
            t = strip(t[1])
        elif t[0] == 'elem':
            t = strip(t[1])
        elif t[0] == 'C' and t[2] is not None:
            t = strip(t[2])
        else:
            return None
    return None


def srcfields(t):
    """fields of the source object mentioned in a term"""
    r = set()
    if t is None:
        return r
    for x in subterms(t):
        if x[0] == 'F' and x[1] == SRC:
            r.add(x[2])
    return r


def thisfields(t):
    r = set()
    if t is None:
        return r
    for x in subterms(t):
        if x[0] == 'F' and x[1] == THIS:
            r.add(x[2])
    return r


class Res:
    def __init__(s):
        s.handled_any = {}     # field -> line of first handling
        s.exits = []           # list of (handled set) at normal exits
        s.issues = []          # (kind, field, loc, text)
        s.bases_any = set()
        s.nvp = []
        s.truncated = False
        s.nfuncs = 0
        s.sites = 0
        s.shared = []          # (field, loc, text): a pointer of the source is stored in the copy
        s.ptrsites = 0


def is_ptr_type(t):
    if not t or 'function<' in t:
        return False
    return 'shared_ptr<' in t or 'unique_ptr<' in t or t.rstrip().endswith('*')


COPYWORDS = ('clone', 'copy', 'load')


def shallow(t):
    """the term is a pointer (or container of pointers) taken over unchanged from the source"""
    t = strip(t) if t is not None else None
    if t is None:
        return False
    if t[0] == 'F':
        return t[1] == SRC or shallow(t[1])
    if t[0] in ('elem', 'X'):
        return shallow(t[1])
    if t[0] == 'K' and len(t[2]) >= 1:
        return any(shallow(a) for a in t[2] if a is not None)
    if t[0] == 'C':
        if any(w in (t[1] or '').lower() for w in COPYWORDS) or (t[1] or '').startswith('make_'):
            return False
        if t[2] is not None:
            if t[1] in ('begin', 'end', 'cbegin', 'cend', 'get', 'front', 'back', 'at', 'lock', 'data'):
                return shallow(t[2])
            return False
        if t[1] in ('move', 'forward', 'dynamic_pointer_cast', 'static_pointer_cast', 'convertSmartPointer', 'begin', 'end', 'get', 'next', 'prev', 'const_pointer_cast'):
            return any(shallow(a) for a in t[3] if a is not None)
    return False


class MatrixClient(Client):
    def __init__(self, prog, cls, mode):
        self.p = prog; self.cls = cls; self.mode = mode; self.res = Res()
        self.names = {f["n"] for b in [cls.q] + prog.bases_of(cls.q) if b in prog.classes for f in prog.classes[b].fields if not f.get("st")}
        self.hier = [cls.q] + prog.bases_of(cls.q)
        self.loops = {}
        self.modified = {}
        self.ftype = {f["n"]: f.get('ct', '') for b in [cls.q] + prog.bases_of(cls.q) if b in prog.classes for f in prog.classes[b].fields if not f.get("st")}

    def transparent(self, name, q, args):
        if name in CONVERT:
            return 0
        return None

    def relevant(self, f):
        # helpers of the same class (not the hooks of the bases: those are "base" obligations)
        if f.cls and f.cls == self.cls.q:
            return f.n not in ('clone_', 'clone')
        if f.cls is None and f.d.get('kind') == 'func' and f.file == self.root.file and not f.n.startswith(('copy', 'compare', 'getIdentity')):
            return True
        return False

    def mark(self, st, f, ev):
        self.res.sites += 1
        self.res.handled_any.setdefault(f, ev.loc)
        return [st.w(cl=(st.cl[0] | {f}, st.cl[1]))]

    def markbase(self, st, b):
        self.res.bases_any.add(b)
        return [st.w(cl=(st.cl[0] | {('base', b)}, st.cl[1]))]

    def branch(self, t, truth, st, node, func):
        # self assignment guard
        if t[0] == 'B' and t[1] == '==' and {stripall(t[2]), stripall(t[3])} == {THIS, SRC}:
            return None if truth else st
        return st


class CopyClient(MatrixClient):
    """load_, copy constructor, assignment operator"""

    def pure_copy(self, rhs, f):
        """is rhs exactly the source's field f (or a clone / new object of it)"""
        t = strip(rhs)
        while True:
            if t is None:
                return False
            if t[0] == 'F' and t[1] == SRC:
                return t[2] == f
            if t[0] == 'C':
                if t[2] is not None and srcfields(t[2]):
                    if t[1] in ('clone', 'load', 'get', 'clone_', 'lock', 'begin', 'count', 'time_since_epoch'):
                        t = strip(t[2]); continue
                    return t[1] not in ('size', 'empty')
                c = [a for a in t[3] if a is not None and srcfields(a)]
                if len(c) >= 1:
                    t = strip(c[0]); continue
                return False
            if t[0] in ('N', 'K'):
                c = [a for a in t[2] if a is not None and srcfields(a)]
                if len(c) >= 1:
                    t = strip(c[0]); continue
                return False
            if t[0] in ('X', 'elem', 'F'):
                t = strip(t[1]); continue
            return False

    def do(self, ev, st, f, rhs):
        sf = srcfields(rhs)
        if is_ptr_type(self.ftype.get(f)):
            self.res.ptrsites += 1
            if f in sf and shallow(rhs):
                self.res.shared.append((f, ev.loc, tshow(rhs)))
        if f in sf:
            if not self.pure_copy(rhs, f):
                self.res.issues.append(('altered', f, ev.loc, 'is set from %s instead of being copied' % tshow(rhs)))
            return self.mark(st, f, ev)
        if sf and (sf & self.names):
            self.res.issues.append(('wrong-source', f, ev.loc, 'is set from the source\'s %s' % ', '.join(sorted(sf))))
            return self.mark(st, f, ev)
        if rhs is not None and rhs[0] == 'C' and rhs[2] is not None and strip(rhs[2]) == SRC and rhs[1] == 'clone':
            self.res.issues.append(('wrong-source', f, ev.loc, 'is set from a clone of the whole source object'))
            return self.mark(st, f, ev)
        # whole-object value built from the source (e.g. *cp)
        if rhs is not None and strip(rhs) == SRC:
            return self.mark(st, f, ev)
        return None

    def event(self, ev, st):
        k = ev.kind
        if k == 'init':
            i = ev.extra
            if i.get('b'):
                if ev.rhs is not None and mentions(ev.rhs, lambda x: x == SRC):
                    return self.markbase(st, short(i['b']))
                return None
            f = i.get('m')
            if f and f in self.names:
                r = self.do(ev, st, f, ev.rhs)
                return r
            if i.get('d'):     # delegating constructor: obligations move there
                return [st.w(cl=(st.cl[0] | {'*deleg'}, st.cl[1]))]
            return None
        if k == 'assign':
            f = field_of(ev.lhs, THIS)
            if strip(ev.lhs) == THIS and ev.rhs is not None and strip(ev.rhs) == SRC:
                return [st.w(cl=(st.cl[0] | {'*all'}, st.cl[1]))]
            if f is None or f not in self.names:
                return None
            if ev.op != '=':
                # copying never accumulates, unless as part of an element loop
                return None
            r = self.do(ev, st, f, ev.rhs)
            if r is not None:
                return r
            if self.guarded(st, f):
                return self.mark(st, f, ev)
            # a later overwrite with something unrelated undoes the copy
            if f in st.cl[0] and strip(ev.lhs) == ('F', THIS, f) and not srcfields(ev.rhs):
                self.res.issues.append(('overwritten', f, ev.loc, 'is overwritten with %s after having been copied' % tshow(ev.rhs)))
            return None
        if k == 'call':
            nm = ev.name or ''
            q = ev.q or ''
            fn = ev.extra or {}
            # base class hooks
            if ev.base == THIS and fn.get('qual') or (ev.base == THIS and nm in ('load_pc',)):
                if any(a is not None and strip(a) == SRC for a in ev.args):
                    o = short(fn.get('q') or '') or short(fn.get('o') or '')
                    return self.markbase(st, o)
            tgts = set()
            if ev.base is not None:
                f = field_of(ev.base, THIS)
                if f in self.names:
                    tgts.add(f)
            for a in ev.args:
                f = field_of(a, THIS) if a is not None else None
                if f in self.names:
                    tgts.add(f)
            if not tgts:
                return None
            sf = set()
            for a in list(ev.args) + ([ev.base] if ev.base is not None else []):
                sf |= srcfields(a)
            out = st
            hit = False
            for f in tgts:
                if f in sf and is_ptr_type(self.ftype.get(f)) and ev.base is not None and field_of(ev.base, THIS) == f:
                    self.res.ptrsites += 1
                    if nm in ('push_back', 'emplace_back', 'push_front', 'insert', 'assign', 'reset', 'swap', 'push', 'emplace', 'add') and any(shallow(a) for a in ev.args if a is not None):
                        self.res.shared.append((f, ev.loc, '%s(%s)' % (nm, ', '.join(tshow(a) for a in ev.args if a is not None))))
                elif f in sf and is_ptr_type(self.ftype.get(f)) and nm in ('copy', 'copy_n', 'swap', 'copy_if', 'transform') and nm != 'transform':
                    self.res.shared.append((f, ev.loc, '%s(..)' % nm))
                if f in sf:
                    out = self.mark(out, f, ev)[0]; hit = True
                elif sf & self.names and nm.startswith('copy'):
                    self.res.issues.append(('wrong-source', f, ev.loc, 'is copied from the source\'s %s' % ', '.join(sorted(sf))))
                    out = self.mark(out, f, ev)[0]; hit = True
                elif nm in ('reset', 'clear') and self.guarded(st, f):
                    out = self.mark(out, f, ev)[0]; hit = True
                elif nm in ('reset', 'clear') and f in st.cl[0]:
                    self.res.issues.append(('overwritten', f, ev.loc, 'is cleared after having been copied'))
            return [out] if hit else None
        if k == 'bin' and ev.op == '=':
            return None
        if k == 'loopexit':
            add = self.loopfields(ev.node)
            if add:
                for f in add:
                    self.res.handled_any.setdefault(f, ev.loc)
                return [st.w(cl=(st.cl[0] | add, st.cl[1]))]
        return None

    def guarded(self, st, f):
        """does the current path depend on the source's field f (e.g. it is null there)"""
        for t, v in st.facts.items():
            if f in srcfields(t):
                return True
        return False

    def loopfields(self, n):
        key = id(n)
        if key not in self.loops:
            own, other = set(), set()
            for x in walk(n):
                if x['k'] == 'member' and not x.get('fn') and x['n'] in self.names:
                    b = x.get('b')
                    while b is not None and b['k'] in ('deref', 'cast'):
                        b = b['s']
                    if b is None or b['k'] == 'this':
                        own.add(x['n'])
                    elif b['k'] == 'ref':
                        other.add(x['n'])
            self.loops[key] = frozenset(own & other)
        return self.loops[key]


class CompareClient(MatrixClient):
    def relevant(self, f):
        if f.cls and f.cls == self.cls.q:
            return f.n not in ('compare', 'operator==', 'operator!=')
        return f.cls is None and f.file == self.root.file and not f.n.startswith(('compare', 'getIdentity'))

    def subst(self, t):
        if t == THIS:
            return SRC
        if isinstance(t, tuple):
            return tuple(self.subst(x) if isinstance(x, tuple) else x for x in t)
        return t

    def pair(self, ev, st, a, b):
        a = stripall(a); b = stripall(b)
        fs = (thisfields(a) | thisfields(b) | srcfields(a) | srcfields(b))
        out = st
        if not fs:
            return None
        ok = self.subst(a) == b and not srcfields(a) or self.subst(b) == a and not srcfields(b)
        if not ok:
            # element-wise comparisons in loops use different iterators for both sides
            if (thisfields(a) and srcfields(b) and thisfields(a) == srcfields(b)) or (thisfields(b) and srcfields(a) and thisfields(b) == srcfields(a)):
                ok = True
        if not ok:
            self.res.issues.append(('mispaired', sorted(fs)[0], ev.loc, 'compares %s with %s' % (tshow(a), tshow(b))))
        new = frozenset(f for f in fs)
        for f in fs:
            self.res.handled_any.setdefault(f, ev.loc)
            self.res.sites += 1
        return [st.w(cl=(st.cl[0] | new, 'open'))]

    def event(self, ev, st):
        if ev.kind != 'call':
            return None
        nm = ev.name
        if nm in ('compare_t', 'compare'):
            if ev.args and ev.args[0] is not None and ev.args[0][0] == 'C' and ev.args[0][1] in ('getIdentity', 'getBaseIdentity'):
                a, b = ev.args[0][3][0], ev.args[0][3][1]
                return self.pair(ev, st, a, b)
            if len(ev.args) >= 2 and ev.args[0] is not None and ev.args[1] is not None:
                return self.pair(ev, st, ev.args[0], ev.args[1])
        if nm == 'compare_base_t' or nm == 'compare_base':
            ta = ev.node.get('ta') or (ev.node.get('f') or {}).get('ta') or []
            if ta:
                return [self.markbase(st, short(ta[0]))[0].w(cl=(st.cl[0] | {('base', short(ta[0]))}, 'open'))]
        if (ev.extra or {}).get('qual') and nm in ('compare', 'compare_', 'compare_base') and any(a is not None and strip(a) == SRC for a in ev.args):
            return self.markbase(st, short((ev.extra.get('q') or ev.extra.get('o') or '')))
        if nm == 'evaluate':
            return [st.w(cl=(st.cl[0], 'evaluated'))]
        return None


class SerialClient(MatrixClient):
    """serialize / save / load of one archive"""

    def event(self, ev, st):
        k = ev.kind
        if k == 'call' and ev.name == 'base_object':
            ta = ev.node.get('ta') or (ev.node.get('f') or {}).get('ta') or []
            if ta:
                return self.markbase(st, short(ta[0]))
        if k in ('bin', 'shift') and ev.op in ('&', '<<', '>>') and ev.rhs is not None:
            r = ev.rhs
            name = None
            if r[0] == 'C' and r[1] == 'make_nvp' and len(r[3]) == 2:
                name = r[3][0][2] if r[3][0] and r[3][0][0] == 'L' else None
                r = r[3][1]
            elif r[0] == 'C' and r[1] in ('make_array', 'make_binary_object') and r[3]:
                r = r[3][0]
            if ('arch',) in set(subterms(ev.lhs)) or True:
                fs = thisfields(r) & self.names
                local = stripall(r)
                self.res.nvp.append((name, ev.loc, tshow(stripall(r))))
                out = st
                for f in fs:
                    out = self.mark(out, f, ev)[0]
                if not fs and local is not None and local[0] in ('V', 'K', 'C', 'N', 'lockv'):
                    # a temporary stands for the fields it is computed from / written to
                    fs = self.locals_to_fields(local)
                    for f in fs:
                        out = self.mark(out, f, ev)[0]
                return [out]
        if k == 'call' and ev.name in ('load_construct_data', 'split_member', 'split_free'):
            return None
        return None

    def locals_to_fields(self, t):
        r = set()
        ids = {x[1] for x in subterms(t) if x[0] == 'V'}
        for x in walk(self.root.body):
            # F = local ... / local = F
            if x['k'] == 'bin' and x['op'] == '=':
                a, b = x['a'], x['b']
                la = [y.get('id') for y in walk(a) if y['k'] == 'ref' and y.get('rk') == 'local']
                lb = [y.get('id') for y in walk(b) if y['k'] == 'ref' and y.get('rk') == 'local']
                fa = {y['n'] for y in walk(a) if y['k'] == 'member' and y['n'] in self.names}
                fb = {y['n'] for y in walk(b) if y['k'] == 'member' and y['n'] in self.names}
                if set(lb) & ids:
                    r |= fa
                if set(la) & ids:
                    r |= fb
            if x['k'] == 'call':
                refs = {y.get('id') for a in x['a'] for y in walk(a) if y['k'] == 'ref' and y.get('rk') == 'local'}
                if refs & ids and x.get('f') and x['f']['k'] == 'member':
                    r |= {y['n'] for y in walk(x['f']) if y['k'] == 'member' and y['n'] in self.names}
        return r


def analyse(prog, cls, func, kind):
    C = {'copy': CopyClient, 'compare': CompareClient, 'serial': SerialClient}[kind](prog, cls, kind)
    C.root = func
    C.max_states = 600
    it = Interp(prog, C, cls.q)
    args = None
    if kind in ('copy', 'compare'):
        args = [SRC]
    outs, thrown = it.run(func, (frozenset(), 'none'), args=args)
    C.res.exits = [(st.cl[0], st.cl[1], dict(st.facts)) for st, _ in outs]
    C.res.truncated = it.truncated
    C.res.nfuncs = len(it.nfuncs)
    C.res.func = func
    return C.res


class ClassInfo:
    pass


def build(prog):
    """-> {class q: ClassInfo} for all classes taking part in the copy/compare/serialize protocol"""
    r = {}
    for q, c in sorted(prog.classes.items()):
        ms = prog.bycls.get(q, [])
        ci = ClassInfo()
        ci.cls = c
        ci.load = [m for m in ms if m.n in ('load_', 'load_pc', 'load_er') and m.body]
        ci.compare = [m for m in ms if m.n == 'compare_']
        ci.serial = [m for m in ms if m.n == 'serialize']
        ci.save = [m for m in ms if m.n == 'save' and len(m.params) == 2]
        ci.sload = [m for m in ms if m.n == 'load' and len(m.params) == 2 and ci.save]
        ci.cctor = [m for m in ms if m.d.get('cm') == 'copy' and not m.d.get('dflt')]
        ci.assign = [m for m in ms if m.d.get('cm') == 'copy=' and not m.d.get('dflt')]
        # an "operator=" / load of a template or an inherited counterpart with another parameter type is no copy operation
        if not (ci.load or ci.compare or ci.serial or ci.save or ci.cctor or ci.assign):
            continue
        ci.r = {}
        for k, fs, kind in (('load', ci.load, 'copy'), ('cctor', ci.cctor, 'copy'), ('assign', ci.assign, 'copy'), ('compare', ci.compare, 'compare'),
                            ('serialize', ci.serial, 'serial'), ('save', ci.save, 'serial'), ('sload', ci.sload, 'serial')):
            for f in fs:
                ci.r.setdefault(k, []).append(analyse(prog, c, f, kind))
        r[q] = ci
    return r
