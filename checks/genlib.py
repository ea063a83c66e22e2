"""Shared by the generator checks: own-buffer allocation, sample coverage, per-sample state."""
from fin import *
from real import *

def buf(prog):
    """(offset of the own buffer, of its channel count, of its sample rate, config offsets)"""
    import c05
    bo = c05.layout_buffer(prog)
    b = [v for v in prog.layout('BaseModule').values() if v[0] == bo and v[2].startswith('dsp::buff::Buffer')][0]
    BL = prog.layout(b[2])
    info = member_via(prog, 'wit_get_info')
    ML = prog.layout('ModuleInfo')
    return dict(bo=bo, nch=bo + BL['nchannels'][0], rate=bo + BL['sample_rate'][0], size=b[1],
                cfg={k: info + ML[k][0] for k in ('sample_rate', 'in_buffer', 'out_buffer', 'channels')})

def selfoff(f, t):
    b, o = base_off(drop_version(t))
    return o if b is not None and f.is_self(b) else None

def cfgval(f, B, t, k):
    t = drop_version(t)
    if t[0] in ('sitofp', 'uitofp'):
        t = t[1]
    return t[0] == 'ld' and selfoff(f, t[1]) == B['cfg'][k]

def is_total(f, B, n):
    """n = configured buffer size times channels"""
    d = P(drop_version(n))
    for m, c in d.items():
        if len(d) == 1 and c == 1 and len(m) == 2:
            a, b = m
            return (cfgval(f, B, a, 'out_buffer') and cfgval(f, B, b, 'channels')) or (cfgval(f, B, b, 'out_buffer') and cfgval(f, B, a, 'channels'))
    return False

def handed(items, i):
    """the buffer that items[i] takes over, back through local buffers that hand it on"""
    chain = [drop_version(items[i].args[1])]
    for x in reversed(items[:i]):
        if x.kind == 'call' and x.name in ('vector', 'operator=') and 'vector' in x.full and len(x.args) == 2 and drop_version(x.args[0]) == chain[-1]:
            chain.append(drop_version(x.args[1]))
    return chain

def alloc(f, B, items):
    """(index of the allocation among items, reason) - the own buffer is sized out_buffer*channels with its channel count and sample rate, before any sample is written"""
    own = lambda t: selfoff(f, t)
    k = None
    got = set()
    for i, e in enumerate(items):
        if e.kind == 'call' and e.name in ('resize', 'assign', 'operator=') and e.args and own(e.args[0]) == B['bo']:
            if e.name == 'operator=':
                chain = handed(items, i)
                src = chain[-1]
                made = [x for x in items[:i] if x.kind == 'call' and x.name == 'vector' and drop_version(x.args[0]) == src and len(x.args) > 1]
                if not made or not is_total(f, B, made[-1].args[1]):
                    return None, 'the own buffer is replaced by a buffer of another size'
                k = i
                # channel count and rate of the temporary follow by copy
                for x in items:
                    if x.kind == 'store':
                        ds = {sub(drop_version(x.addr), y) for y in chain}
                        if I(B['nch'] - B['bo']) in ds and cfgval(f, B, x.val, 'channels'):
                            got.add('nch')
                        if I(B['rate'] - B['bo']) in ds and cfgval(f, B, x.val, 'sample_rate'):
                            got.add('rate')
            elif not is_total(f, B, e.args[1]):
                return None, 'the own buffer is resized to %s, not configured size times channels' % tstr(e.args[1])
            else:
                k = i
        elif e.kind == 'call' and e.name == 'reserve' and f.is_self(e.args[0]):
            k = i
            got |= {'nch', 'rate'}
        elif e.kind == 'store' and own(e.addr) == B['nch']:
            if not cfgval(f, B, e.val, 'channels'):
                return None, 'the channel count of the buffer becomes %s' % tstr(e.val)
            got.add('nch')
        elif e.kind == 'store' and own(e.addr) == B['rate']:
            if not cfgval(f, B, e.val, 'sample_rate'):
                return None, 'the sample rate of the buffer becomes %s' % tstr(e.val)
            got.add('rate')
    if k is None:
        return None, 'the own buffer is never sized for this cycle'
    if got != {'nch', 'rate'}:
        return None, 'the buffer does not get the configured %s' % ({'nch', 'rate'} - got)
    return k, None

def samples_written(f, B, effs):
    """effects that write into the storage of the own buffer: [(eff, address offset from begin)]"""
    base = ('ld', add(f.this(), I(B['bo'])))
    out = []
    for e in effs:
        if e.ev.kind in ('store', 'fill', 'copy'):
            a = drop_version(e.ev.addr)
            if any(s == base or (s[0] == 'ld' and selfoff(f, s[1]) == B['bo']) for s in subterms(a)):
                bs = [s for s in subterms(a) if s[0] == 'ld' and selfoff(f, s[1]) == B['bo']]
                out.append((e, sub(a, bs[0])))
    return out

def cap_term(f, B):
    sz = size(add(f.this(), I(B['bo'])))
    nch = ('ld', add(f.this(), I(B['nch'])))
    return sz, nch

def is_size(f, B, c):
    c = canon(nonneg(c)) if c is not None else None
    if c is None:
        return False
    if c[0] == 'max0':
        c = c[1]
    return (c[0] == 'size' and selfoff(f, c[1]) == B['bo']) or is_total(f, B, c)

def is_nch(f, B, c):
    c = canon(nonneg(c)) if c is not None else None
    return c is not None and c[0] == 'ld' and selfoff(f, c[1]) in (B['nch'], B['cfg']['channels'])

def is_frames(f, B, c):
    c = canon(nonneg(c)) if c is not None else None
    if c is None:
        return False
    if c[0] in ('udiv',) and is_size(f, B, c[1]) and is_nch(f, B, c[2]):
        return True
    return cfgval(f, B, c, 'out_buffer')

def covers(f, B, loops, off):
    """does the write at byte offset off (from the first sample) inside these loops visit every sample exactly once?  None or the kind of visit"""
    off = canon(off)
    if len(loops) == 1:
        l = loops[0]
        if not is_size(f, B, l.count()):
            return None
        it = ('iter', l.header)
        if off == mul(I(8), it):
            return 'interleaved'
        c = canon(nonneg(l.count()))
        if add(off, mul(I(8), it)) == mul(I(8), sub(c, I(1))):
            return 'backward'
        for s in subterms(off):                      # channel after channel
            if s[0] == 'udiv' and s[1] == it and is_frames(f, B, s[2]):
                r = sub(off, mul(I(8), s))
                for m, c in P(r).items():
                    if c == 8 and len(m) == 2:
                        a, b = m
                        for x, y in ((a, b), (b, a)):
                            if x[0] == 'urem' and x[1] == it and x[2] == s[2] and is_nch(f, B, y) and len(P(r)) == 1:
                                return 'sequential'
        return None
    if len(loops) == 2:
        for a, b in ((0, 1), (1, 0)):
            lf, lc = loops[a], loops[b]
            if is_frames(f, B, lf.count()) and is_nch(f, B, lc.count()):
                n = nonneg(lc.count())
                want = add(mul(I(8), mul(canon(n), ('iter', lf.header))), mul(I(8), ('iter', lc.header)))
                alt = [add(mul(I(8), mul(('ld', add(f.this(), I(o))), ('iter', lf.header))), mul(I(8), ('iter', lc.header))) for o in (B['nch'], B['cfg']['channels'])]
                if off == want or off in alt:
                    return 'nested'
    return None

# ------------------------------------------------------------ per-iteration state
def body_seq(f, l, body):
    """block sequence of one iteration path"""
    tk = path_blocks(f, body)
    lo = {x.loop.header: x for x in body if x.kind == 'loop'}
    b, seq, n = l.header, [], 0
    while n < 5000:
        n += 1
        seq.append(b)
        if b in lo and b != l.header:
            x = lo[b]
            nx = [s for s in f.succ[x.exit] if s not in x.loop.blocks]
            seq.append(x.exit)
            b = nx[0]
        else:
            su = f.succ[b]
            if not su:
                return seq
            b = tk.get(b, su[0]) if len(su) > 1 else su[0]
        if b == l.header or b not in l.blocks:
            return seq
    return seq

def iteration(f, l, body, cell):
    """simulate one iteration for the memory cell (address term): returns (resolve, final) where resolve(term) replaces loads of the
    cell and merged values by their meaning in terms of the value SIGMA at the start of the iteration, and final is the value at its end.
    A cell kept in a register for the whole loop (header phi initialised from it and stored back afterwards) is recognised too."""
    seq = body_seq(f, l, body)
    pos = {}
    for k, b in enumerate(seq):
        for j, i in enumerate(f.blocks[b]['ins']):
            pos.setdefault(i['i'], (k, j))
    sts = sorted(((pos[e.ins['i']], e) for e in body if e.kind == 'store' and drop_version(e.addr) == cell and e.ins['i'] in pos), key=lambda x: x[0])
    SIG = ('sigma',)
    regs = {}
    for i in f.blocks[l.header]['ins']:
        if i['o'] == 'phi':
            out = [x for x in i['a'] if x[1] not in l.blocks]
            if len(out) == 1 and drop_version(f.lift(f.op(out[0][0]))) == ('ld', cell):
                regs[i['i']] = [x for x in i['a'] if x[1] in l.blocks][0][0]
    guard = [0]
    def res(t):
        guard[0] += 1
        if guard[0] > 20000:
            raise AnalysisError('state recurrence too deep in %s' % f.dem)
        def g(x):
            if x[0] == 'ld' and drop_version(x[1]) == cell:
                if len(x) > 2 and x[2] in pos:
                    before = [e for p, e in sts if p < pos[x[2]]]
                    if before:
                        return res(before[-1].val)
                return SIG
            if x[0] == 'phi':
                if x[1] in regs:
                    return SIG
                i = f.ins[x[1]]
                b = f.block_of[x[1]]
                if b in seq and b != l.header:
                    k = seq.index(b)
                    for op, pb in i['a']:
                        if pb == seq[k - 1]:
                            return res(f.lift(f.op(op)))
            if x[0] == 'call':
                i = f.ins.get(x[1])
                if i is not None and i['o'] == 'call' and (i.get('f') or ''):
                    nm = short_name(i.get('d', i['f']))
                    if nm in MATH:
                        return mk(nm, *[res(f.sterm(a)) for a in i['a'][:MATH[nm]]])
            return None
        return subst(t, g)
    if sts:
        fin = res(sts[-1][1].val)
    elif regs:
        fin = res(f.lift(f.op(list(regs.values())[0])))
    else:
        fin = SIG
    return res, fin, bool(regs)

def carried_loads(f, l):
    """header phis that only ever carry the value of one memory cell around the loop: id -> ('ld', cell)"""
    out = {}
    for i in f.blocks[l.header]['ins']:
        if i['o'] != 'phi':
            continue
        leaves, todo, seen = set(), [x[0] for x in i['a']], {i['i']}
        while todo:
            o = todo.pop()
            if o[0] == 'v' and o[1] in seen:
                continue
            j = f.ins.get(o[1]) if o[0] == 'v' else None
            if j is not None and j['o'] == 'phi' and f.block_of[o[1]] in l.blocks:
                seen.add(o[1])
                todo += [x[0] for x in j['a']]
            else:
                leaves.add(drop_version(f.lift(f.op(o))))
        if len(leaves) == 1:
            v = leaves.pop()
            if v[0] == 'ld':
                out[i['i']] = v
    return out

def iteration_cells(f, l, body, cells):
    """like iteration, for several memory cells: {name: address} -> (resolve, {name: final value}); start values are ('sigma', name)"""
    seq = body_seq(f, l, body)
    pos = {}
    for k, b in enumerate(seq):
        for j, i in enumerate(f.blocks[b]['ins']):
            pos.setdefault(i['i'], (k, j))
    at = {a: n for n, a in cells.items()}
    sts = {n: sorted(((pos[e.ins['i']], e) for e in body if e.kind == 'store' and drop_version(e.addr) == a and e.ins['i'] in pos), key=lambda x: x[0]) for n, a in cells.items()}
    regs = {}
    for i in f.blocks[l.header]['ins']:
        if i['o'] == 'phi':
            out = [x for x in i['a'] if x[1] not in l.blocks]
            if len(out) == 1:
                v = drop_version(f.lift(f.op(out[0][0])))
                if v[0] == 'ld' and v[1] in at:
                    regs[i['i']] = (at[v[1]], [x for x in i['a'] if x[1] in l.blocks][0][0])
                    continue
                for n in cells:                      # register copy of a cell that was set to the same value before the loop
                    if any(e.kind == 'store' and drop_version(e.addr) == cells[n] and drop_version(e.val) == v and f.block_of[e.ins['i']] not in l.blocks for b, e in f.all_events()):
                        o = [x for x in i['a'] if x[1] in l.blocks][0][0]
                        if (sts[n] and sts[n][-1][1].ins['a'][0] == o) or (not sts[n] and o == ['v', i['i']]):
                            regs[i['i']] = (n, o)
    carried = carried_loads(f, l)
    guard = [0]
    def res(t):
        guard[0] += 1
        if guard[0] > 20000:
            raise AnalysisError('state recurrence too deep in %s' % f.dem)
        def g(x):
            if x[0] == 'phi' and x[1] in carried:
                return carried[x[1]]
            if x[0] == 'ld' and drop_version(x[1]) in at:
                n = at[drop_version(x[1])]
                if len(x) > 2 and x[2] in pos:
                    before = [e for p, e in sts[n] if p < pos[x[2]]]
                    if before:
                        return res(before[-1].val)
                return ('sigma', n)
            if x[0] == 'phi':
                if x[1] in regs:
                    return ('sigma', regs[x[1]][0])
                i = f.ins[x[1]]
                b = f.block_of[x[1]]
                if b in seq and b != l.header:
                    k = seq.index(b)
                    for op, pb in i['a']:
                        if pb == seq[k - 1]:
                            return res(f.lift(f.op(op)))
            return None
        return subst(t, g)
    fin = {}
    for n in cells:
        r = [v for v in regs.values() if v[0] == n]
        fin[n] = res(sts[n][-1][1].val) if sts[n] else res(f.lift(f.op(r[0][1]))) if r else ('sigma', n)
    return res, fin

MATH = {'sin': 1, 'cos': 1, 'modf': 1, 'fmod': 2, 'floor': 1, 'ceil': 1, 'trunc': 1, 'fabs': 1, 'abs': 1, 'pow': 2, 'sqrt': 1, 'exp': 1, 'log': 1, 'tan': 1, 'round': 1, 'sinf': 1, 'cosf': 1}

def close(a, b, tol=1e-11):
    """equality of normal forms up to the rounding of constants"""
    if set(a) != set(b):
        return False
    return all(abs(float(a[m]) - float(b[m])) <= tol * max(1.0, abs(float(b[m]))) for m in a)

# ------------------------------------------------------------ periodic functions of a phase
def fracs(t, x):
    """rewrite every fractional part of x + c in t by a piecewise function of u = frac(x); None if some part is not of that form"""
    U = ('u',)
    bad = []
    def shift(arg):
        d = radd(R(arg), x, -1)
        if set(d) <= {()}:
            c = d.get((), Fraction(0))
            c = c - (c.numerator // c.denominator)
            return c
        return None
    def part(arg):
        c = shift(arg)
        if c is None:
            bad.append(arg)
            return None
        if c == 0:
            return U
        v = ('fadd', U, ('f', repr(float(c))))
        return ('ite', ('fcmp', 'olt', U, ('f', repr(float(1 - c)))), v, ('fadd', v, ('f', '-1')))
    def g(y):
        if y[0] == 'modf' or (y[0] == 'fmod' and y[2] == ('f', '1')) or (y[0] == 'fmod' and R(y[2]) == rconst(1)):
            return part(y[1])
        if y[0] in ('floor', 'trunc'):
            p = part(y[1])
            return ('fsub', y[1], p) if p is not None else None
        return None
    r = subst(t, g)
    return r, U, bad
