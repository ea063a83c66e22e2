"""C11 the uniform buffer re-blocks the upstream samples without losing, repeating or reordering any."""
from genlib import *
LEVEL = 'other'
EXPLANATION = ('The re-blocking loop of the uniform buffer is judged as a transition system: for every path through one iteration the new write index and read index are computed symbolically from the old ones; '
               'the iteration must either pull the module behind it exactly once (adopting its whole buffer and restarting the read index) only when the held buffer is used up, or not at all, and then copy n samples from read index to write index, in order, with both indices advancing by exactly n, '
               'n being bounded by the space left and the samples left. The loop may end only when the own buffer, sized from the configuration, is full or the freshly pulled buffer is empty; the write index restarts at zero, the read index persists between cycles.')
ASSUMPTIONS = ['the write index is zero between cycles (established by the same rule)', 'samples counts stay below 2^31']

def run(ctx):
    prog = ctx.program([r'^UniformBuffer::(process|meta_process)\(', '^wit_'])
    B = buf(prog)
    f = prog.one(r'^UniformBuffer::process\(')
    ctx.fn(f)
    lay, base = prog.layout('UniformBuffer'), prog.layout('BaseModule')
    ib = [o for k, (o, s, ty) in lay.items() if ty.startswith('dsp::buff::Buffer') and not ty.endswith('*') and o != B['bo']]
    ints = sorted(o for k, (o, s, ty) in prog.layout('UniformBuffer').items() if ty in ('int', 'std::size_t', 'unsigned int', 'unsigned long', 'long', 'size_t') and o >= prog.structs['BaseModule']['size'] - 8 and k not in base and '.' not in k)
    if len(ib) != 1:
        raise AnalysisError('the held upstream buffer was not found')
    for ok, det, wh in judge(prog, f, B, ib[0], ints):
        ctx.ob('re-blocks', 'UniformBuffer::process', ok, det, wh)
    g = prog.one(r'^UniformBuffer::meta_process\(')
    ctx.fn(g)
    for items, ex in ret_paths(g):
        c = [e for e in walk_events(items) if e.kind in ('call', 'vcall')]
        ok = len(c) == 1 and c[0].name == 'process' and g.is_self(c[0].obj) and not any(x.kind == 'loop' for x in items)
        ctx.ob('own-pull', 'UniformBuffer::meta_process', ok, 'calls %s' % [e.name for e in c], g.where(None))
    ctx.need('iteration paths', len(ctx.obs), 4)

def feeds(f, op, pos):
    """loads an operand is computed from, merged values resolved inside the iteration"""
    out, todo, seen = [], [op], set()
    while todo:
        o = todo.pop()
        if o[0] != 'v' or o[1] in seen:
            continue
        seen.add(o[1])
        i = f.ins.get(o[1])
        if i is None:
            continue
        if i['o'] == 'load':
            out.append(i)
        elif i['o'] == 'phi':
            continue
        else:
            todo += [x for x in i['a'] if isinstance(x, list) and x and x[0] == 'v']
    return out

def judge(prog, f, B, ib, ints):
    th = f.this()
    own, held = add(th, I(B['bo'])), add(th, I(ib))
    for items, ex in ret_paths(f):
        k, why = alloc(f, B, items)
        if k is None:
            yield False, why, f.where(None)
            return
        lp = [x for x in items if x.kind == 'loop' and any(e.kind in ('vcall', 'call') and e.name == 'meta_process' for e in walk_events([x]))]
        if len(lp) != 1 or items.index(lp[0]) < k:
            yield False, 'the module behind is pulled in %d loops' % len(lp), f.where(None)
            return
        if any(e.kind in ('vcall', 'call') and e.name in ('meta_process', 'get_buffer') for x in items if x.kind != 'loop' for e in [x] if x.kind != 'cond'):
            yield False, 'the module behind is pulled outside the re-blocking loop', f.where(None)
            return
    L = lp[0].loop
    # which integer member is the write index, which the read index: by the copy addresses
    best = None
    for cand in [(w, r) for w in ints for r in ints if w != r]:
        cells = {'w': add(th, I(cand[0])), 'r': add(th, I(cand[1]))}
        res = [body(prog, f, B, own, held, L, b, cells) for b in L.bodies()]
        score = sum(1 for r in res if r[0])
        if best is None or score > best[0]:
            best = (score, res, cells)
    if best is None:
        yield False, 'write and read index were not recognised', f.where(None)
        return
    _, res, cells = best
    yield from res
    # exits
    for items, ex in ret_paths(f):
        it = next(x for x in items if x.kind == 'loop' and x.loop is L)
        c = [x for x in it.partial if x.kind == 'cond']
        rf = [e for e in it.partial if e.kind in ('vcall', 'call') and e.name == 'meta_process']
        t = subst_cells(f, L, it.partial, cells)
        full = any(is_full(t(x.t), x.v, own) for x in c) and not rf
        empty = bool(rf) and any(is_empty(f, x.t, x.v, held) for x in c[-1:])
        aft = items[items.index(it) + 1:]
        z = [e for e in aft if e.kind == 'store' and drop_version(e.addr) == cells['w']]
        oth = [e for e in aft if e.kind == 'store' and drop_version(e.addr) == cells['r']]
        zb = z and z[-1].val == I(0)
        bef = [e for e in items[:items.index(it)] if e.kind == 'store' and drop_version(e.addr) in (cells['w'], cells['r'])]
        if not (full or empty):
            yield False, 'the cycle can end although samples are still missing: %s' % [str(x)[:90] for x in c[-1:]], it.loop.where()
        elif oth or any(drop_version(e.addr) == cells['r'] for e in bef):
            yield False, 'the read index is changed outside the re-blocking loop', f.where(None)
        elif not zb and not any(drop_version(e.addr) == cells['w'] and e.val == I(0) for e in bef):
            yield False, 'the write index does not restart at zero', f.where(None)
        else:
            yield True, 'ends when %s, write index restarts' % ('full' if full else 'the module behind has nothing left'), f.where(None)

def subst_cells(f, L, part, cells):
    at = {a: n for n, a in cells.items()}
    regs = {}
    for i in f.blocks[L.header]['ins']:
        if i['o'] == 'phi':
            out = [x for x in i['a'] if x[1] not in L.blocks]
            if len(out) == 1:
                v = drop_version(f.lift(f.op(out[0][0])))
                regs[i['i']] = at.get(v[1]) if v[0] == 'ld' else ('w' if v == I(0) else None)
    def g(x):
        if x[0] == 'phi' and regs.get(x[1]):
            return ('sigma', regs[x[1]])
        if x[0] == 'ld' and drop_version(x[1]) in at:
            return ('sigma', at[drop_version(x[1])])
        return None
    return lambda t: canon(subst(t, g))

def is_full(t, v, own):
    """condition says: write index reached the size of the own buffer"""
    w, n = ('sigma', 'w'), size(own)
    if t[0] != 'icmp':
        return False
    p, a, b = t[1], t[2], t[3]
    if p in ('slt', 'ult') and (a, b) == (w, n):
        return not v
    if p in ('sle', 'ule') and (a, b) == (n, w):
        return v
    if p in ('eq', 'ne') and {a, b} == {w, n}:
        return v == (p == 'eq')
    return False

def is_empty(f, t, v, held):
    t = canon(t)
    if t[0] != 'icmp':
        return False
    b, e = ('ld', held), ('ld', add(held, I(8)))
    if t[1] in ('eq', 'ne') and ({t[2], t[3]} == {b, e} or {t[2], t[3]} == {size(held), I(0)}):
        return v == (t[1] == 'eq')
    return t[1] in ('slt', 'ult') and (t[2], t[3]) == (I(0), size(held)) and not v

def body(prog, f, B, own, held, L, b, cells):
    res, fin = iteration_cells(f, L, b, cells)
    seq = body_seq(f, L, b)
    wh = L.where()
    pulls = [e for e in b if e.kind in ('vcall', 'call') and e.name == 'meta_process']
    takes = [e for e in b if e.kind in ('vcall', 'call') and e.name == 'get_buffer']
    sw, sr = ('sigma', 'w'), ('sigma', 'r')
    conds = [(canon(res(x.t)), x.v, x) for x in b if x.kind == 'cond']
    used = lambda c, v: (c[0] == 'icmp' and c[1] in ('slt', 'ult') and (c[2], c[3]) == (sr, size(held)) and not v) or (c[0] == 'icmp' and c[1] in ('sle', 'ule') and (c[2], c[3]) == (size(held), sr) and v) or \
        (c[0] == 'icmp' and c[1] in ('eq', 'ne') and {c[2], c[3]} == {sr, size(held)} and v == (c[1] == 'eq'))
    left = lambda c, v: used(c, not v)
    if any(e.kind in ('vcall', 'call') and e.name in ('meta_process', 'get_buffer') for x in b if x.kind == 'loop' for e in walk_events([x])):
        return False, 'the module behind is pulled in an inner loop', wh
    r0 = sr
    if pulls or takes:
        if len(pulls) != 1 or len(takes) != 1 or b.index(pulls[0]) > b.index(takes[0]) or target_of(f, pulls[0].obj) != 'up' or target_of(f, takes[0].obj) != 'up':
            return False, 'an iteration pulls the module behind %d times and takes its buffer %d times' % (len(pulls), len(takes)), wh
        kp = b.index(pulls[0])
        before = [c for c in conds if b.index(c[2]) < kp]
        if not any(used(c, v) or is_empty(f, x.t, x.v, held) for c, v, x in before):
            return False, 'the module behind is pulled although the held buffer is not used up', pulls[0].where()
        src = f.term(takes[0].ins['i'])
        vec = [e for e in b if e.kind == 'call' and e.name == 'operator=' and drop_version(e.args[0]) == held and drop_version(e.args[1]) == src]
        if len(vec) != 1:
            return False, 'the pulled buffer is not kept', wh
        r0 = I(0)
        zs = [e for e in b if e.kind == 'store' and drop_version(e.addr) == cells['r']]
        if not zs or zs[0].val != I(0):
            return False, 'the read index does not restart with the pulled buffer', wh
    else:
        if not any(left(c, v) for c, v, x in conds):
            return False, 'samples are read although the held buffer may be used up', wh
    n = sub(canon(fin['w']), sw)
    n2 = sub(canon(fin['r']), r0)
    if n != n2:
        return False, 'write index advances by %s, read index by %s' % (tstr(n), tstr(n2)), wh
    if n == I(0):
        # an iteration that only pulls
        wr = [e for e in effects(f, b) if e.ev.kind in ('store', 'copy') and any(s == ('ld', own) for s in subterms(canon(res(e.ev.addr))))]
        return (True, 'pull only', wh) if pulls and not wr else (False, 'an iteration makes no progress', wh)
    space, avail = sub(size(own), sw), sub(size(held), r0)
    okn = n == I(1) or (n[0] in ('smin', 'umin') and set(n[1:]) == {space, avail}) or (n[0] == 'max0' and False)
    if not okn:
        return False, 'the number of samples copied, %s, is not bounded by the space left and the samples left' % tstr(n), wh
    if pulls:                                       # the bound must be taken from the pulled buffer
        pos = {}
        for k, bb in enumerate(seq):
            for j, i in enumerate(f.blocks[bb]['ins']):
                pos.setdefault(i['i'], (k, j))
        vp = pos[[e for e in b if e.kind == 'call' and e.name == 'operator=' and drop_version(e.args[0]) == held][0].ins['i']]
        st = [e for e in b if e.kind == 'store' and drop_version(e.addr) == cells['r']][-1]
        for i in feeds(f, st.ins['a'][0], pos):
            a = drop_version(f.op(i['a'][0]))
            if a in (held, add(held, I(8))) and pos.get(i['i'], vp) < vp:
                return False, 'the samples left are those of the previous buffer', wh
    effs = [e for e in effects(f, b) if e.ev.kind in ('store', 'copy', 'fill') and drop_version(e.ev.addr) not in cells.values()]
    effs = [e for e in effs if not (isconst(sub(drop_version(e.ev.addr), held)))]
    if not effs:                                    # the path on which the copy is empty
        if any(c[0] == 'icmp' and c[1] in ('slt', 'sle') and n in (c[2], c[3]) for c, v, x in conds):
            return True, 'nothing to copy', wh
        return False, 'nothing is copied', wh
    if len(effs) != 1:
        return False, '%d writes in one iteration' % len(effs), wh
    e = effs[0]
    d, s = canon(res(e.ev.addr)), None
    bd, bs = ('ld', own), ('ld', held)
    if e.ev.kind == 'store':
        v = canon(res(e.ev.val))
        s = v[1] if v[0] == 'ld' else None
        it = mul(I(8), ('iter', e.loops[-1].header)) if e.loops else I(0)
        cnt = canon(res(nonneg(e.loops[-1].count()))) if e.loops and e.loops[-1].count() else I(1)
    elif e.ev.kind == 'copy':
        s, it, cnt = canon(res(e.ev.val)), I(0), div(canon(res(e.ev.size)), 8)
    if s is None or len(e.loops) > 1:
        return False, 'writes %s' % e.ev, e.ev.where()
    if d != add(add(bd, mul(I(8), sw)), it) or s != add(add(bs, mul(I(8), r0)), it):
        return False, 'the copy goes from address %s to address %s' % (tstr(s), tstr(d)), e.ev.where()
    clamp = sub(n, mk('smin', *(tuple(n[1:]) + (I(0),)))) if n[0] == 'smin' else None
    if cnt not in (n, clamp):
        return False, '%s samples are copied, the indices advance by %s' % (tstr(cnt), tstr(n)), e.ev.where()
    return True, '%s, then %s samples copied in order, both indices advanced' % ('pulls the used-up buffer' if pulls else 'continues in the held buffer', tstr(n)), e.ev.where()
