"""Exact evaluation of extracted terms over chosen values of their atoms, and path-wise resolution of memory cells.
Used to compare an expression found in the source with its specification independently of how it is written."""
import math
from genlib import *

class Unknown(Exception):
    pass

CMP = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'slt': lambda a, b: a < b, 'ult': lambda a, b: a < b, 'sle': lambda a, b: a <= b, 'ule': lambda a, b: a <= b,
       'olt': lambda a, b: a < b, 'ole': lambda a, b: a <= b, 'oeq': lambda a, b: a == b, 'one': lambda a, b: a != b, 'une': lambda a, b: a != b, 'ueq': lambda a, b: a == b,
       'ugt': lambda a, b: a > b, 'sgt': lambda a, b: a > b, 'uge': lambda a, b: a >= b, 'sge': lambda a, b: a >= b, 'ogt': lambda a, b: a > b, 'oge': lambda a, b: a >= b}

def tdiv(a, b):
    if b == 0:
        raise Unknown('division by zero')
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q

def num(t):
    x = t[1]
    try:
        return flt(x)
    except Exception:
        return Fraction(float(x))

def ev(t, atom):
    """value of a term; atom(term) gives the value of an atom (or None)"""
    r = atom(t)
    if r is not None:
        return r
    k = t[0]
    if k == 'i':
        return t[1]
    if k == 'f':
        return num(t)
    g = lambda i: ev(t[i], atom)
    if k == 'P':
        r = 0
        for m, c in t[1]:
            v = c
            for x in m:
                v *= ev(x, atom)
            r += v
        return r
    if k in ('icmp', 'fcmp'):
        return int(CMP[t[1]](g(2), g(3)))
    if k == 'ite':
        return g(2) if g(1) else g(3)
    if k in ('smin', 'umin', 'minnum', 'llvm.minnum'):
        return min(g(i) for i in range(1, len(t)))
    if k in ('smax', 'umax', 'maxnum', 'llvm.maxnum'):
        return max(g(i) for i in range(1, len(t)))
    if k == 'max0':
        return max(0, g(1))
    if k in ('udiv', 'sdiv', 'div'):
        return tdiv(g(1), g(2))
    if k in ('urem', 'srem'):
        a, b = g(1), g(2)
        return a - b * tdiv(a, b)
    if k in ('sitofp', 'uitofp', 'zext', 'sext', 'freeze', 'fpext', 'fptrunc'):
        return g(1)
    if k in ('fptosi', 'fptoui'):
        return int(g(1))
    if k == 'trunc' or k[:4] in ('sext', 'zext') and k[4:].isdigit():
        w = t[1] if k == 'trunc' else int(k[4:])
        v = g(len(t) - 1)
        if not isinstance(v, int):
            return v
        v %= 1 << w
        return v - (1 << w) if k[0] != 'z' and v >> (w - 1) else v
    if k == 'switchdef':
        return int(g(1) not in t[2])
    if k == 'b2i':
        return int(bool(g(1)))
    if k == 'fadd':
        return g(1) + g(2)
    if k == 'fsub':
        return g(1) - g(2)
    if k == 'fmul':
        return g(1) * g(2)
    if k == 'fdiv':
        a, b = g(1), g(2)
        if b == 0:
            raise Unknown('division by zero')
        return Fraction(a) / Fraction(b) if not isinstance(a, float) and not isinstance(b, float) else float(a) / float(b)
    if k == 'fneg':
        return -g(1)
    if k in ('shl',):
        return g(1) << g(2)
    if k in ('ashr', 'lshr'):
        return g(1) >> g(2)
    if k == 'and':
        a, b = g(1), g(2)
        return int(a) & int(b)
    if k == 'or':
        return int(g(1)) | int(g(2))
    if k == 'xor':
        return int(g(1)) ^ int(g(2))
    if k in ('fabs', 'abs', 'llvm.fabs', 'llvm.abs'):
        return abs(g(1))
    if k in ('floor', 'llvm.floor'):
        return math.floor(g(1))
    if k in ('ceil', 'llvm.ceil'):
        return math.ceil(g(1))
    if k in ('modf', 'round', 'llvm.trunc', 'llvm.round'):
        v = g(1)
        w = Fraction(v) if not isinstance(v, float) else v
        return w - math.trunc(w) if k == 'modf' else math.trunc(w) if 'trunc' in k else math.floor(abs(w) + Fraction(1, 2)) * (1 if w >= 0 else -1)
    if k == 'fmod':
        a, b = Fraction(g(1)), Fraction(g(2))
        return a - b * math.trunc(a / b)
    if k == 'pow':
        return float(g(1)) ** float(g(2))
    if k in ('sin', 'cos', 'sqrt', 'exp', 'log', 'tan'):
        return getattr(math, k)(float(g(1)))
    raise Unknown(tstr(t))

def same(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return abs(float(a) - float(b)) <= 1e-9 * max(1.0, abs(float(b)))
    if a == b:
        return True
    return abs(float(a) - float(b)) <= 1e-12 * max(1.0, abs(float(b)))

def all_hold(conds, atom):
    """can every (term, truth) hold?  unknown ones are ignored"""
    for t, v in conds:
        try:
            if bool(ev(t, atom)) != bool(v):
                return False
        except Unknown:
            pass
    return True

def straight(f, items, cells):
    """resolve(term): loads of the given cells (addresses) on this path replaced by the value last stored before the load,
    merged values by the path taken, mathematical calls by their function"""
    seq = trace(f, items)
    pos = {}
    for k, b in enumerate(seq):
        for j, i in enumerate(f.blocks[b]['ins']):
            pos.setdefault(i['i'], (k, j))
    sts = {}
    for x in items:
        es = [x] if x.kind != 'loop' else list(walk_events([x]))
        for e in es:
            if e.kind == 'store' and drop_version(e.addr) in cells:
                p = pos.get(e.ins['i']) if x.kind != 'loop' else pos.get(f.blocks[x.loop.header]['ins'][0]['i'])
                sts.setdefault(drop_version(e.addr), []).append((p, e, x.kind == 'loop'))
    def where(i):
        if i in pos:
            return pos[i]
        b = f.block_of.get(i)
        for h, l in f.loops.items():
            if b in l.blocks and h in seq:
                return (seq.index(h), -1)
        return None
    depth = [0]
    def res(t):
        depth[0] += 1
        if depth[0] > 5000:
            raise AnalysisError('value chain too long in %s' % f.dem)
        def g(x):
            if x[0] == 'ld' and drop_version(x[1]) in sts and len(x) > 2:
                p = where(x[2])
                if p is not None:
                    bef = [q for q in sts[drop_version(x[1])] if q[0] is not None and q[0] < p]
                    if bef:
                        if bef[-1][2]:
                            return ('havoc', x)
                        return res(bef[-1][1].val)
            if x[0] == 'phi' and f.block_of[x[1]] not in f.loops:
                y = unphi(f, items, x)
                return res(y) if y != x else None
            if x[0] == 'call':
                i = f.ins.get(x[1])
                if i is not None and i['o'] == 'call' and (i.get('f') or ''):
                    nm = short_name(i.get('d', i['f']))
                    if nm in MATH:
                        return mk(nm, *[res(f.sterm(a)) for a in i['a'][:MATH[nm]]])
            return None
        return subst(t, g)
    return res

def writes(f, items, atom, base, esz=8, env=None):
    """the writes a path makes through base (address term of the storage), executed abstractly for given atom values:
    list of (element index, value or term).  atom(term) must resolve every index, count and condition; values may stay terms."""
    out = []
    env = dict(env or {})
    def at(t):
        if t[0] == 'iter' and t[1] in env:
            return env[t[1]]
        return atom(t)
    def run(xs):
        for x in xs:
            if x.kind == 'loop':
                c = x.loop.count()
                if c is None or len(x.loop.exits) != 1:
                    raise Unknown('uncounted loop')
                n = max(0, ev(drop_version(c), at))
                if n > 64:
                    raise Unknown('long loop')
                for i in range(n):
                    env[x.loop.header] = i
                    done = False
                    for b in x.loop.bodies():
                        cs = [(drop_version(y.t), y.v) for y in b if y.kind == 'cond' and not is_control(y, x.loop)]
                        if all(bool(ev(t, at)) == v for t, v in cs):
                            run(b)
                            done = True
                            break
                    if not done:
                        raise Unknown('no iteration path applies')
                env.pop(x.loop.header, None)
            elif x.kind in ('store', 'fill', 'copy'):
                a = drop_version(x.addr)
                if not any(s == base for s in subterms(a)):
                    continue
                off = ev(sub(a, base), at)
                if off % esz:
                    raise Unknown('misaligned')
                if x.kind == 'store':
                    out.append((off // esz, val(x.val)))
                elif x.kind == 'fill':
                    for i in range(ev(drop_version(x.size), at) // esz):
                        out.append((off // esz + i, val(x.val)))
                else:
                    s = drop_version(x.val)
                    for i in range(ev(drop_version(x.size), at) // esz):
                        out.append((off // esz + i, ('ld', add(s, I(esz * i)))))
    def val(v):
        v = drop_version(v)
        try:
            return ev(v, at)
        except Unknown:
            return subst(v, lambda y: I(env[y[1]]) if y[0] == 'iter' and y[1] in env else None)
    run(items)
    return out
