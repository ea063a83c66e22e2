"""Field effects: the value every field holds when a path is done, and what an accessor returns."""
from kern import *

def same_div(t):
    """udiv and sdiv agree on the non-negative counts they are used on"""
    return subst(drop_version(t), lambda x: ('udiv', same_div(x[1]), same_div(x[2])) if x[0] == 'sdiv' else None)

def canon(t):
    """versions dropped, divisions unified, clamps with the right sign kept"""
    return same_div(t)

def rets(f):
    """[(conds, value, items)] with the value of a merged return resolved per path"""
    out = []
    for items, ex in ret_paths(f):
        v = f.op(ex['a'][0]) if ex['a'] else None
        out.append((items, v, ex))
    return out

def path_blocks(f, items):
    """(branch block, taken successor) pairs along a path"""
    tk = {}
    for x in items:
        if x.kind == 'cond':
            b = f.block_of[x.ins['i']]
            su = x.ins.get('su') or []
            if len(su) == 2:
                tk[b] = su[0] if x.v else su[1]
    return tk

def trace(f, items):
    """block sequence of an acyclic path (loops skipped over their recorded exit)"""
    tk = path_blocks(f, items)
    lo = {x.loop.header: x for x in items if x.kind == 'loop'}
    b, seq, n = 0, [], 0
    while n < 10000:
        n += 1
        seq.append(b)
        if b in lo:
            x = lo[b]
            nx = [s for s in f.succ[x.exit] if s not in x.loop.blocks]
            seq.append(x.exit)
            if not nx:
                return seq
            b = nx[0]
            continue
        su = f.succ[b]
        if not su:
            return seq
        b = tk.get(b, su[0]) if len(su) > 1 else su[0]
    return seq

def unphi(f, items, t):
    """resolve merged values by the path taken"""
    seq = None
    def g(x):
        nonlocal seq
        if x[0] == 'phi':
            i = f.ins[x[1]]
            b = f.block_of[x[1]]
            if b in f.loops:
                return None
            if seq is None:
                seq = trace(f, items)
            if b in seq:
                k = seq.index(b)
                if k:
                    for op, pb in i['a']:
                        if pb == seq[k - 1]:
                            return subst(f.lift(f.op(op)), g)
        return None
    return subst(t, g)

def ites(conds, t):
    """split a value over the conditions it selects on: [(conds, value)]"""
    for s in subterms(t):
        if s[0] == 'ite':
            out = []
            for v in (True, False):
                if any(c == s[1] and w != v for c, w in conds):
                    continue
                r = subst(t, lambda x: (x[2] if v else x[3]) if x == s else None)
                out += ites(conds + [(s[1], v)], r)
            return out
    return [(conds, t)]

def cases(f):
    """[(conditions, returned value, items)] over all paths, selects split"""
    out = []
    for items, ex in ret_paths(f):
        cs = [(x.t, x.v) for x in items if x.kind == 'cond']
        v = f.op(ex['a'][0]) if ex['a'] else None
        if v is None:
            out.append((cs, None, items))
            continue
        v = unphi(f, items, f.lift(v))
        out += [(c, w, items) for c, w in ites(cs, v)]
    return out

def finals(f, items, base=None):
    """offset -> value last stored through base (default: this) on a path without loops"""
    out = {}
    for e in items:
        if e.kind == 'store':
            a = drop_version(e.addr)
            if base is None:
                b, o = base_off(a)
                if b is None or not f.is_self(b):
                    continue
            else:
                d = sub(a, base)
                if not isconst(d):
                    continue
                o = d[1]
            out[o] = unphi(f, items, e.val)
    return out

def after_loops(f, t):
    """iteration numbers seen behind a counted loop are its count"""
    def g(x):
        if x[0] == 'iter' and x[1] in f.loops:
            l = f.loops[x[1]]
            c = l.count()
            if c is not None and l.exits == [l.header]:
                return nonneg(c)
        return None
    return subst(t, g)

def narrowings(f, pred):
    """instructions that cut a 64-bit value down to 32 bits (or fewer)"""
    out = []
    for b in f.blocks.values():
        for i in b['ins']:
            if i['o'] == 'trunc' and i['t'] in ('i32', 'i16', 'i8') and f.width(i['a'][0]) == 64:
                t = f.lift(f.op(i['a'][0]))
                if pred(t):
                    out.append((i, t))
            elif i['o'] in ('ashr', 'lshr') and i['t'] == 'i64' and i['a'][1][0] == 'c' and i['a'][1][1] >= 32 and i['a'][0][0] == 'v':
                j = f.ins.get(i['a'][0][1])          # sign-extension of the low half written as two shifts
                if j and j['o'] == 'shl' and j['a'][1][0] == 'c' and j['a'][1][1] >= 32:
                    t = f.lift(f.op(j['a'][0]))
                    if pred(t):
                        out.append((i, t))
    return out

def is_zero_test(c, v, t):
    """does condition c having truth v say t == 0 (True), t != 0 (False) or nothing (None)?"""
    c = canon(c)
    t = canon(t)
    if c[0] == 'icmp' and I(0) in (c[2], c[3]):
        o = c[3] if c[2] == I(0) else c[2]
        if o == t:
            if c[1] == 'eq':
                return v
            if c[1] == 'ne':
                return not v
            if c[1] in ('slt', 'ult') and c[2] == I(0):      # 0 < t
                return not v
            if c[1] in ('sle', 'ule') and c[3] == I(0):      # t <= 0
                return v
    if c[0] == 'icmp' and I(1) in (c[2], c[3]):
        o = c[3] if c[2] == I(1) else c[2]
        if o == t and c[1] in ('slt', 'ult') and c[3] == I(1):
            return v
        if o == t and c[1] in ('sle', 'ule') and c[2] == I(1):
            return not v
    return None
