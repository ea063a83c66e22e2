"""Loop-nest effects: what a path writes, inside which counted loops, under which conditions."""
from chainlib import *

class Eff:
    """an event with the loops around it (outermost first) and the conditions it depends on inside them"""
    __slots__ = ('ev', 'loops', 'conds')
    def __init__(self, ev, loops, conds):
        self.ev, self.loops, self.conds = ev, loops, conds
    def counts(self):
        return [l.count() for l in self.loops]
    def __repr__(self):
        return '%s in %s if %s' % (self.ev, [tstr(c) if c else '?' for c in self.counts()], self.conds)

def is_control(c, l):
    """condition that only decides whether the counted loop goes on"""
    b = c.fn.block_of[c.ins['i']]
    return b in l.exits and len(l.exits) == 1 and l.count() is not None

def effects(f, items, loops=(), conds=()):
    """every event below the items of one path (loop bodies included, each body path separately)"""
    out, cs = [], list(conds)
    for x in items:
        if x.kind == 'cond':
            if not any(is_control(x, l) for l in loops):
                cs.append(x)
        elif x.kind == 'loop':
            for b in x.loop.bodies():
                out += effects(f, b, tuple(loops) + (x.loop,), cs)
            if x.partial and not (len(x.loop.exits) == 1 and x.loop.count() is not None and all(e.kind == 'cond' for e in x.partial)):
                out += effects(f, x.partial, tuple(loops) + (x.loop,), cs)
        else:
            out.append(Eff(x, tuple(loops), tuple(cs)))
    return out

def nonneg(c):
    return c[1] if c is not None and c[0] == 'max0' else c

def index_of(addr, base, esz, l):
    """addr = base + esz*(affine in iter(l)): returns +1 (forward from 0), -1 (backward from count-1) or None"""
    it = ('iter', l.header)
    d = sub(addr, base)
    if d == mul(I(esz), it):
        return 1
    c = nonneg(l.count())
    if c is not None and d == add(mul(I(-esz), it), mul(I(esz), sub(c, I(1)))):
        return -1
    return None

def begin(vec):
    return ('ld', vec)

def size(vec, esz=8):
    return ('size', vec, esz)

def addends(t, op='fadd'):
    """flatten a sum into its terms"""
    if t[0] == op:
        return [y for x in t[1:] for y in addends(x, op)]
    return [t]

def strip0(l):
    return [x for x in l if not (x[0] == 'f' and float(x[1]) == 0.0)]

def same_value(a, b):
    return drop_version(a) == drop_version(b)
