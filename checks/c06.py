"""C06 mixers: the down mixer sums position by position into a fresh buffer, the up mixer gives each output a whole copy."""
from kern import *
from chainsim import *
from c05 import layout_buffer, adopted
LEVEL = 'other'
EXPLANATION = ('Every path of the down mixer\'s processing must build a zeroed buffer of the configured size (output size times channels), add to position i exactly once the sample at position i of every buffer of the input list, for every position '
               'both buffers have, adopt that buffer whole with the configured channel count and sample rate, and write nothing else. Every path of the up mixer\'s accessor must return a buffer holding a copy of all bytes of its own buffer and leave its own samples untouched; '
               'giving it a forward module must both record an output and set the module it is synced from. Loop ranges and addresses come from scalar evolution.')
EXPLANATION += ' Code whose form these rules cannot see is followed instead by abstract interpretation over abstract neighbour modules (up to 65 inputs, every field a symbol, branches on unknown values refused), where the same effects must be found.'
ASSUMPTIONS = ['std::vector constructors and copies behave as specified']

def ctor_size(f, ev):
    """element count a vector constructor call makes, when it value-initialises to zero"""
    if ev.name != 'vector' or len(ev.args) < 2:
        return None
    m = re.search(r'vector\((.*)\)$', ev.full)
    return ev.args[1]

def run(ctx):
    prog = ctx.program([r'ModuleMix(Down|Up)::(process|get_buffer|forward|link)\(', '^wit_'])
    slots = base_vt(prog)
    cls = {c.name: c for c in classes(prog)}
    boff = layout_buffer(prog)
    info = member_via(prog, 'wit_get_info')
    ML = prog.layout('ModuleInfo')
    bl = prog.layout('BaseModule')
    bsize = [v[1] for v in bl.values() if v[0] == boff and v[2].startswith('dsp::buff::Buffer')][0]
    bt = [v[2] for v in bl.values() if v[0] == boff and v[2].startswith('dsp::buff::Buffer')][0]
    BL = prog.layout(bt)
    f = prog.one(r'^ModuleMixDown::process\(')
    ctx.fn(f)
    ok, det, wh = either(judge_down(prog, f, boff, bsize, info, ML, BL), lambda: mixes(prog, cls['ModuleMixDown'], f, slots))
    ctx.ob('sum', 'ModuleMixDown::process', ok, det, wh)
    f = prog.one(r'^ModuleMixUp::get_buffer\(')
    ctx.fn(f)
    ok, det, wh = either(judge_up(prog, f, boff, bsize), lambda: copies(prog, cls['ModuleMixUp'], f, slots))
    ctx.ob('copy', 'ModuleMixUp::get_buffer', ok, det, wh)
    f = prog.one(r'^ModuleMixUp::forward\(BaseModule')
    ctx.fn(f)
    fwd = member_via(prog, 'wit_base_forward')
    out = collections(prog, 'ModuleMixUp').get('outputs')
    if not out:
        raise AnalysisError('no output list in the up mixer')
    for items, ex in ret_paths(f):
        push = [e for e in walk_events(items) if e.kind == 'call' and e.name in ('push_back', 'emplace_back') and e.args[0] == add(f.this(), I(out[0]))]
        sets = [e for e in walk_events(items) if e.kind == 'store' and base_off(e.addr)[0] is not None and f.is_self(base_off(e.addr)[0]) and base_off(e.addr)[1] == fwd]
        ok, det = either((len(push) == 1 and len(sets) >= 1, 'output recorded %d times, forward module set %d times' % (len(push), len(sets))), lambda: forward_set(prog, cls['ModuleMixUp'], f, slots, out[0]))
        ctx.ob('records-output', 'ModuleMixUp::forward', ok, det, f.where(None))
    ctx.need('mixer bodies', len(ctx.obs), 3)

def judge_down(prog, f, boff, bsize, info, ML, BL):
    cls = 'ModuleMixDown'
    lay = prog.layout(cls)
    lists = [o for k, (o, sz, ty) in lay.items() if ty.startswith('std::vector<dsp::buff::Buffer')]
    if len(lists) != 1:
        raise AnalysisError('list of input buffers not identified')
    lst = add(f.this(), I(lists[0]))
    fld = lambda k: info + ML[k][0]
    def cfg(t, k):
        t = drop_version(t)
        b, o = base_off(t[1]) if t[0] == 'ld' else (None, 0)
        return b is not None and f.is_self(b) and o == fld(k)
    for items, ex in ret_paths(f):
        effs = effects(f, items)
        # adoption of a local buffer
        cand = None
        for e in effs:
            if e.ev.kind == 'call' and e.ev.name == 'operator=' and 'vector' in e.ev.full:
                b, o = base_off(drop_version(e.ev.args[0]))
                if b is not None and f.is_self(b) and o == boff:
                    if e.loops:
                        return False, 'the own buffer is replaced inside a loop', e.ev.where()
                    cand = e
        if cand is None:
            return False, 'the mixed samples never become the own buffer', f.where(None)
        src = drop_version(cand.ev.args[1])
        k = items.index(cand.ev)
        ok, det = adopted(f, items, k, boff, bsize, src)
        if not ok:
            return False, det, cand.ev.where()
        # construction of that buffer
        made = [e for e in effs if e.ev.kind == 'call' and e.ev.name in ('vector', 'resize', 'assign') and drop_version(e.ev.args[0]) == src]
        if len(made) != 1 or made[0].loops or len(made[0].ev.args) < 2:
            return False, 'the mixing buffer is not made once', f.where(None)
        n = drop_version(made[0].ev.args[1])
        d = P(n)
        prods = [m for m, c in d.items() if c == 1 and len(m) == 2]
        if not (len(d) == 1 and prods and ((cfg(prods[0][0], 'out_buffer') and cfg(prods[0][1], 'channels')) or (cfg(prods[0][1], 'out_buffer') and cfg(prods[0][0], 'channels')))):
            return False, 'the mixing buffer has %s samples, not output size times channels' % tstr(n), made[0].ev.where()
        for k2, what in (('nchannels', 'channels'), ('sample_rate', 'sample_rate')):
            if k2 not in BL:
                raise AnalysisError('buffer field %s not found' % k2)
            st = [e for e in effs if e.ev.kind == 'store' and drop_version(e.ev.addr) == add(src, I(BL[k2][0]))]
            if not st or not cfg(st[-1].ev.val, what):
                return False, 'the mixing buffer does not carry the configured %s' % what, f.where(None)
        # the accumulation
        acc = [e for e in effs if e.ev.kind in ('store', 'copy', 'fill') and e.loops]
        if len(acc) != 1:
            return False, '%d writes in the mixing loops, expected one' % len(acc), f.where(None)
        e = acc[0]
        if e.conds:
            return False, 'mixing depends on %s' % e.conds[:2], e.ev.where()
        if len(e.loops) != 2:
            return False, 'the mixing write is nested in %d loops' % len(e.loops), e.ev.where()
        for a, b in ((0, 1), (1, 0)):
            lo, li = e.loops[a], e.loops[b]      # lo: over the list, li: over positions
            co, ci = nonneg(lo.count()), nonneg(li.count())
            if co is None or ci is None:
                continue
            if co == size(lst, 40) or co == ('size', lst, bsize):
                break
        else:
            return False, 'the mixing loops do not visit every input buffer', e.ev.where()
        if index_of(add(begin(lst), I(0)), begin(lst), 1, lo) is None and False:
            pass
        terms = strip0(addends(drop_version(e.ev.val)))
        old = ('ld', drop_version(e.ev.addr))
        if terms.count(old) != 1 or len(terms) != 2:
            return False, 'the write is %s, not old value plus one input sample' % tstr(e.ev.val), e.ev.where()
        terms.remove(old)
        x = terms[0]
        di = index_of(drop_version(e.ev.addr), begin(src), 8, li)
        if di is None:
            return False, 'position %s of the mix is not the loop position' % tstr(e.ev.addr), e.ev.where()
        # input sample: [ [list_begin + 40*iter] + 8*iter ]
        if x[0] != 'ld':
            return False, 'adds %s' % tstr(x), e.ev.where()
        inb = None
        for m, c in P(x[1]).items():
            if c == 1 and len(m) == 1 and m[0][0] == 'ld':
                inb = m[0][1]
        if inb is None or index_of(inb, begin(lst), bsize, lo) is None:
            return False, 'the added sample is not from the visited input buffer: %s' % tstr(x), e.ev.where()
        if index_of(x[1], begin(inb), 8, li) != di or di is None:
            return False, 'the added sample is at another position: %s' % tstr(x), e.ev.where()
        c = drop_version(ci)
        want = {('size', inb, 8), ('size', src, 8)}
        have = set(c[1:]) if c[0] == 'umin' else {c}
        if have != want and not (have == want | {n}):
            return False, 'positions visited: %s, not the common length of both buffers' % tstr(c), e.ev.where()
    return True, 'fresh configured buffer, each position the sum over all inputs, adopted whole', f.where(None)

def judge_up(prog, f, boff, bsize):
    for items, ex in ret_paths(f):
        r = drop_version(f.op(ex['a'][0]))
        vec, rest = False, set(range(24, bsize))
        for e in walk_events(items):
            if e.kind == 'call' and e.name == 'operator=' and 'vector' in e.full:
                a, s = drop_version(e.args[0]), drop_version(e.args[1])
                b, o = base_off(s)
                if a == r and b is not None and f.is_self(b) and o == boff:
                    vec = 'const&' in norm(e.full)
                    if not vec:
                        return False, 'the samples are moved away, other outputs get nothing', e.where()
            elif e.kind in ('store', 'copy'):
                d = sub(drop_version(e.addr), r)
                if isconst(d):
                    n = e.size if e.kind == 'store' else e.size[1]
                    s = drop_version(e.val)
                    s = s[1] if e.kind == 'store' and s[0] == 'ld' else (s if e.kind == 'copy' else None)
                    b, o = base_off(s) if s is not None else (None, 0)
                    rng = set(range(d[1], d[1] + n))
                    good = b is not None and f.is_self(b) and o == boff + d[1]
                    rest = rest - rng if good else rest | (rng & set(range(24, bsize)))
        if not vec:
            return False, 'the returned buffer is not a copy of all own samples', f.where(None)
        if rest:
            return False, 'channel count / sample rate are not copied (bytes %s)' % sorted(rest)[:4], f.where(None)
        if base_off(r)[1] == boff and f.is_self(base_off(r)[0] or I(0)):
            return False, 'the own buffer itself is handed out', f.where(None)
    return True, 'whole copy of the own buffer', f.where(None)
