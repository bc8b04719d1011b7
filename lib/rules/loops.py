"""Which container a loop runs over, and whether it visits every element exactly once."""
from facts import walk
from flow import *
from rules.c_broker import Rec, key


class LoopRec(Rec):
    """Rec that also records assignments to loop variables and the conditions loops are decided by"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.conds = {}          # id(condition node) -> [(term, truth)]
        self.ranges = {}         # id(loop node) -> [range terms]
        self.broken = set()      # loops that may be left early
        self.nodes = {}
        self.inits = {}          # id(loop node) -> {var id: [value before the loop]}
        self.running = set()

    def event(self, ev, st):
        if ev.kind in ('assign', 'decl') and ev.lhs is not None and ev.lhs[0] == 'V' and (ev.rhs is not None):
            tr, seg = st.cl
            rhs = key(ev.rhs)
            if ev.kind == 'assign' and ev.op in ('+=', '-=', '*=', '/=', '|='):
                rhs = ('B', ev.op[:-1], ('V', ev.lhs[1], 'old'), rhs)
            return [st.w(cl=(tr + (('set', ev.lhs[1], rhs),), seg))]
        if ev.kind == 'assign' and ev.lhs is not None and ev.lhs[0] == 'P' and ev.rhs is not None:
            tr, seg = st.cl
            rhs = key(ev.rhs)
            if ev.op and ev.op.endswith('=') and ev.op != '=':
                rhs = ('B', ev.op[:-1], ev.lhs, rhs)
            return [st.w(cl=(tr + (('set', ev.lhs, rhs),), seg))]
        if ev.kind == 'iter':
            tr, seg = st.cl
            self.nodes[id(ev.node)] = ev.node
            if ev.extra:
                self.ranges.setdefault(id(ev.node), set()).add(ev.extra)
            if not (seg and seg[-1][0] == id(ev.node)):
                d = self.inits.setdefault(id(ev.node), {})
                last = {}
                for r in tr:
                    if r[0] == 'set':
                        last[r[1]] = r[2]
                for i, t in last.items():
                    d.setdefault(i, set()).add(t)
        if ev.kind == 'loopexit' and ev.extra == 'break':
            self.broken.add(id(ev.node))
        return super().event(ev, st)

    def branch(self, t, truth, st, node, func):
        self.conds.setdefault(id(node), set()).add((t, truth))
        return super().branch(t, truth, st, node, func)

    # -- results
    def coverage(self, node):
        """(container, var id) if the loop visits every element of the container exactly once, in order"""
        i = id(node)
        if i in self.broken:
            return None
        if node['k'] in ('forrange', 'call'):
            rs = self.ranges.get(i, set())
            if len(rs) != 1:
                return None
            r = next(iter(rs))
            if len(r) == 2:
                return (key(strip(r[1])), node['v']['id'])
            a, b = key(r[1]), key(r[2])
            if a and b and a[0] == 'C' and b[0] == 'C' and a[1] in ('begin', 'cbegin') and b[1] in ('end', 'cend') and a[2] == b[2]:
                return (key(strip(a[2])), None)
            return None
        c = node.get('c')
        if c is None or node['k'] not in ('for', 'while'):
            return None
        while c.get('k') == 'un' and c.get('op') == '!' and id(c) not in self.conds:
            c = c['s']
        dec = self.conds.get(id(c), set())
        bodies = [b for n, b in self.again if n is node]
        last = [tuple(tr) for n, s, tr in self.loops if n is node]
        inits = self.inits.get(i, {})
        for t, truth in dec:
            if t is None or t[0] != 'B':
                continue
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                a, b = key(a), key(b)
                if a is None or b is None:
                    continue
                if a[0] == 'V' and b[0] == 'C' and b[1] == 'size' and ((t[1] == '<' and key(t[2]) == a) or t[1] == '=='):
                    vid, cont, zero = a[1], key(strip(b[2])), (lambda x: x is not None and x[0] == 'L' and x[2] == '0')
                elif a[0] == 'elem' and len(a) == 3 and b[0] == 'C' and b[1] in ('end', 'cend') and t[1] == '==':
                    vid, cont = a[2], key(strip(b[2]))
                    if key(strip(a[1])) != cont:
                        continue
                    zero = lambda x, cont=cont: x is not None and x[0] == 'C' and x[1] in ('begin', 'cbegin') and key(strip(x[2])) == cont
                else:
                    continue
                if not inits.get(vid) or not all(zero(x) for x in inits[vid]):
                    continue
                ok = bool(last)
                for b2 in last:
                    steps = [r for r in b2 if r[0] == 'set' and r[1] == vid]
                    if len(steps) != 1 or not one_up(steps[0][2], vid):
                        ok = False
                if ok:
                    return (cont, vid)
        return None

    def steps(self, node, vid):
        """the variable advances by exactly one in every iteration"""
        last = [tr for n, s, tr in self.loops if n is node]
        return bool(last) and all(len([r for r in b if r[0] == 'set' and r[1] == vid]) == 1 and one_up(next(r for r in b if r[0] == 'set' and r[1] == vid)[2], vid) for b in last)


def one_up(t, vid):
    if t is None or t[0] != 'B' or t[1] != '+':
        return False
    x = [y for y in (t[2], t[3]) if not (y is not None and y[0] == 'L' and y[2] == '1')]
    return len(x) == 1 and x[0] is not None and ((x[0][0] == 'V' and x[0][1] == vid) or (x[0][0] == 'elem' and len(x[0]) == 3 and x[0][2] == vid) or x[0][0] in ('C', 'L', 'F'))


def elem_of(t, cont, vid):
    """t denotes the current element of a loop over cont"""
    t = key(t)
    if t is None:
        return False
    if t[0] == 'elem':
        return key(strip(t[1])) == cont
    if t[0] == 'X' and key(strip(t[1])) == cont:
        return key(t[2]) is not None and key(t[2])[:2] == ('V', vid)
    if t[0] == 'C' and t[1] in ('at', 'operator[]', '[]', 'value') and t[2] is not None and key(strip(t[2])) == cont and len(t[3]) == 1:
        a = key(t[3][0])
        return a is not None and a[:2] == ('V', vid)
    return False
