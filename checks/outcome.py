"""What a loop-free function does, path by path: conditions, writes, container operations and result over the state at entry.
The extracted formulas are compared with a specification by exact evaluation over chosen values of their atoms."""
from evalt import *

OBJ = {0: 1 << 20, 1: 2 << 20, 2: 3 << 20, 3: 4 << 20}

def data(vec):
    """address of the elements of the vector object at an address"""
    return (vec << 16) + (1 << 50)

class Outcome:
    def __init__(self, f):
        self.f, self.paths = f, []
        for items, ex in ret_paths(f):
            if any(x.kind == 'loop' for x in items):
                raise Unknown('loops')
            cells = {drop_version(x.addr) for x in items if x.kind == 'store'}
            res = straight(f, items, cells)
            evs = []
            for x in items:
                if x.kind == 'cond':
                    evs.append(('cond', res(x.t), x.v))
                elif x.kind == 'store':
                    evs.append(('store', res(x.addr), res(x.val)))
                elif x.kind in ('copy', 'fill'):
                    evs.append((x.kind, res(x.addr), res(x.val) if x.val is not None else None, res(x.size) if x.size is not None else None))
                elif x.kind == 'call':
                    if x.name not in MATH:
                        evs.append(('call', x.name, [res(a) for a in x.args], x.full or ''))
                else:
                    raise Unknown('does %s' % x)
            ret = res(unphi(f, items, f.op(ex['a'][0]))) if ex['a'] else None
            self.paths.append((evs, ret))
    def at(self, args, mem, vecs):
        """(written cells, vectors after, returned value) for a state; raises Unknown when the outcome is not determined by it"""
        for evs, ret in self.paths:
            r = Run(args, mem, vecs)
            if r.go(evs):
                return r.out, r.vecs, None if ret is None else r.ev0(ret)
        raise Unknown('no path applies')

class Run:
    def __init__(self, args, mem, vecs):
        self.args, self.mem0, self.vec0 = args, mem, vecs
        self.mem, self.vecs, self.out = dict(mem), {k: list(v) for k, v in vecs.items()}, {}
    def atom(self, t):
        k = t[0]
        if k == 'arg':
            return self.args.get(t[1])
        if k == 'alloca':
            return (9 << 20) + (hash(t) & 0xffff) * 64
        if k == 'ld':
            a = ev(t[1], self.atom)
            return self.mem0[a] if a in self.mem0 else self.both(lambda vs: self.cell(vs, a))
        if k == 'size':
            v = ev(t[1], self.atom)
            return self.both(lambda vs: len(vs[v]) * 8 // t[2] if v in vs else None)
        return None
    def both(self, g):
        """a container read must not depend on whether it happens before or after the container operations of the path"""
        a, b = g(self.vec0), g(self.vecs)
        if a != b:
            raise Unknown('the container while it changes')
        return a
    def cell(self, vecs, a):
        for v, l in vecs.items():
            if a == v:
                return data(v)
            if a == v + 8:
                return data(v) + 8 * len(l)
            if data(v) <= a < data(v) + 8 * len(l) and (a - data(v)) % 8 == 0:
                return l[(a - data(v)) // 8]
        return None
    def ev0(self, t):
        return ev(t, self.atom)
    def go(self, evs):
        for e in evs:
            if e[0] == 'cond':
                if bool(self.ev0(e[1])) != e[2]:
                    return False
            elif e[0] == 'store':
                a = self.ev0(e[1])
                self.put(a, self.ev0(e[2]))
            elif e[0] == 'copy':
                d, s, n = self.ev0(e[1]), self.ev0(e[2]), self.ev0(e[3])
                for k in range(0, n, 8):
                    if s + k not in self.mem:
                        raise Unknown('copies unknown memory')
                    self.put(d + k, self.mem[s + k])
            elif e[0] == 'fill':
                d, v, n = self.ev0(e[1]), self.ev0(e[2]), self.ev0(e[3])
                if v:
                    raise Unknown('fills with %s' % v)
                for k in range(0, n, 8):
                    self.put(d + k, 0)
            else:
                self.call(e)
        return True
    def put(self, a, v):
        self.mem[a] = self.out[a] = v
        for q, l in self.vecs.items():
            if data(q) <= a < data(q) + 8 * len(l):
                l[(a - data(q)) // 8] = v
    def slice(self, p, q):
        """the elements between two addresses of one vector"""
        for v, l in self.vecs.items():
            if data(v) <= p <= data(v) + 8 * len(l) and data(v) <= q <= data(v) + 8 * len(l):
                return l[(p - data(v)) // 8:(q - data(v)) // 8]
    def call(self, e):
        _, nm, args, full = e
        if nm.startswith('~') or nm in ('operator new', 'operator delete', '__cxa_guard_release'):
            return
        if 'vector' not in full:
            raise Unknown('calls %s' % nm)
        a = [self.ev0(x) for x in args if x[0] != 'alloca' or True]
        if 'initializer_list' in full and len(a) > 2:
            a[2] = a[1] + 8 * a[2]
        v = a[0]
        isvec = lambda x: x in self.vecs
        moved = '&&' in full
        cur = self.vecs.get(v)
        if nm == 'vector':
            if len(a) == 1:
                self.vecs[v] = []
            elif len(a) > 2 and self.slice(a[1], a[2]) is not None:
                self.vecs[v] = self.slice(a[1], a[2])
            elif isvec(a[1]):
                self.vecs[v] = list(self.vecs[a[1]])
                if moved:
                    self.vecs[a[1]] = []
            elif 0 <= a[1] < 1 << 16:
                self.vecs[v] = [Fraction(0)] * a[1]
            else:
                raise Unknown('makes a vector of %s elements' % a[1])
            return
        if cur is None:
            raise Unknown('calls %s on another object' % nm)
        if nm == 'operator=' and isvec(a[1]):
            self.vecs[v] = list(self.vecs[a[1]])
            if moved and a[1] != v:
                self.vecs[a[1]] = []
        elif nm == 'assign' and len(a) == 3 and self.slice(a[1], a[2]) is not None:
            self.vecs[v] = self.slice(a[1], a[2])
        elif nm == 'resize':
            fill = self.mem.get(a[2], None) if len(a) > 2 else Fraction(0)
            self.vecs[v] = (cur + [fill] * max(0, a[1] - len(cur)))[:a[1]]
        elif nm in ('push_back', 'emplace_back'):
            self.vecs[v] = cur + [self.mem[a[1]]]
        elif nm == 'clear':
            self.vecs[v] = []
        elif nm == 'swap' and isvec(a[1]):
            self.vecs[v], self.vecs[a[1]] = self.vecs[a[1]], self.vecs[v]
        elif nm in ('reserve', 'shrink_to_fit'):
            self.out[('cap', v)] = (nm,) + tuple(a[1:])
        else:
            raise Unknown('calls %s' % nm)
