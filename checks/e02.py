"""E02 envelopes: the value of every sample follows the curve at the timer's position, stages follow each other without gap."""
from evalt import *
LEVEL = 'other'
EXPLANATION = ('Each envelope body is summarised symbolically (path by path; ramps as one symbolic iteration of the filling loop with the timer position as state) and the extracted expressions are compared with the specified ones by exact rational evaluation over a grid of field values covering every order of the times involved: '
               'constant, step, linear and exponential curves and the accessors they are built from, the step count and hand-over of a chain iteration, the stage switch, the gap stage, the order of the stages of an ADSR envelope and the restart of a timed envelope.')
ASSUMPTIONS = ['floating-point rounding is ignored', 'the frame duration and the channel count of a timer are positive', 'sample counts stay below 2^31', 'a chain of several stages works on one channel (with more, see the known finding)']
STD = dict(wit_env_t0='start_time', wit_env_t1='stop_time', wit_env_v0='value_start', wit_env_v1='value_stop')

def fields(prog):
    o = {}
    for k in ('t0', 't1', 'v0', 'v1', 'timer'):
        o[k] = member_via(prog, 'wit_env_' + k)
    for k in ('sample', 'channels', 'npf'):
        o[k] = o['timer'] + member_via(prog, 'wit_tm_' + k)
    return o

def grid():
    """field values: before, at and after the stop time, several channel counts"""
    out = []
    for npf in (1, 3, 10):
        for ch in (1, 2):
            for s in (0, 1, 4, 7):
                for t0, t1 in ((0, 5), (2, 30), (10, 41), (3, 3 + npf * 3)):
                    for v0, v1 in ((Fraction(1, 2), 2), (0, 1), (3, Fraction(-1, 4))):
                        out.append(dict(npf=npf, channels=ch, sample=s, t0=t0, t1=t1, v0=Fraction(v0), v1=Fraction(v1)))
    return out

def time_of(e, s=None):
    return e['npf'] * ((e['sample'] if s is None else s) // e['channels'])

def atoms(base_is, o, e, more=None):
    """atom resolver: fields of the object base_is accepts"""
    rev = {v: k for k, v in o.items()}
    def atom(t):
        if more is not None:
            r = more(t)
            if r is not None:
                return r
        if t[0] == 'ld':
            b, off = base_is(drop_version(t[1]))
            if b and off in rev and rev[off] in e:
                return e[rev[off]]
        return None
    return atom

def self_base(f):
    return lambda a: (selfoff(f, a) is not None, selfoff(f, a))

def arg_base(a):
    d = sub(a, ('arg', 0))
    return (isconst(d), d[1] if isconst(d) else None)

def agree(ctx, rule, subj, got, want, where, env):
    pass

def run(ctx):
    prog = ctx.program([r'^(ConstantEnvelope|SetValue|LinearRamp|ExponentialRamp|ChainEnvelope)::process\(', r'^DurationEnvelope::start\(', r'^(ADSREnvelope::start|ChainEnvelope::(next_envelope|start|create_internal|optimize|add_envelope))\(', '^wit_'],
                       opaque=['::add_object'], keep=[r'::(process|start|stop|finish|done)\(\)$', r'^ChainEnvelope::(add_envelope|optimize|create_internal|next_envelope)\('], transparent=['^ChainTimer::', '^BaseEnvelope::', 'make_unique'])
    B = buf(prog)
    o = fields(prog)
    accessors(ctx, prog, o)
    constant(ctx, prog, B, o)
    setvalue(ctx, prog, B, o)
    for n, spec in (('LinearRamp', linear), ('ExponentialRamp', exponential)):
        ramp(ctx, prog, B, o, n, spec)
    duration(ctx, prog, o)
    chain(ctx, prog, B, o)
    gap(ctx, prog, o)
    adsr(ctx, prog, o)
    ctx.need('envelope rules', len(ctx.obs), 30)

# ---------------------------------------------------------------- accessors
def accessors(ctx, prog, o):
    spec = {'time': time_of, 'time_inc': time_of, 'remaining': lambda e: tdiv(e['t1'] - time_of(e), e['npf']), 'time_diff': lambda e: e['t1'] - e['t0'],
            'val_diff': lambda e: e['v1'] - e['v0'], 'val_divide': lambda e: e['v1'] / (e['v0'] if e['v0'] else flt('0.000001'))}
    for k, want in spec.items():
        f = prog.one('^wit_env_%s$' % k)
        for items, ex in ret_paths(f):
            cells = {add(('arg', 0), I(x)) for x in o.values()}
            res = straight(f, items, cells)
            v = drop_version(res(f.lift(f.op(ex['a'][0]))))
            cs = [(drop_version(res(x.t)), x.v) for x in items if x.kind == 'cond']
            bad = None
            try:
                for e in grid():
                    at = atoms(arg_base, o, e)
                    if all_hold(cs, at) and not same(ev(v, at), want(e)):
                        bad = e
                        break
            except Unknown as u:
                bad = str(u)
            fi = {q: w for q, w in finals(f, items, ('arg', 0)).items()}
            if k == 'time_inc':
                ok = set(fi) == {o['sample']} and canon(fi[o['sample']]) == add(('ld', add(('arg', 0), I(o['sample']))), I(1))
            else:
                ok = not fi
            ctx.ob('accessor', k, bad is None and ok, 'returns %s%s' % (tstr(v), '' if ok else ', stores %s' % {q: tstr(w) for q, w in fi.items()}) + (', wrong for %s' % show(bad) if bad else ''), f.where(None))
    for k in ('t0', 't1', 'v0', 'v1'):
        f = prog.one('^wit_env_set_%s$' % k)
        for items, ex in ret_paths(f):
            fi = {q: canon(w) for q, w in finals(f, items, ('arg', 0)).items()}
            ctx.ob('accessor', 'set ' + k, fi == {o[k]: ('arg', 1)}, 'stores %s' % {q: tstr(w) for q, w in fi.items()}, f.where(None))

def show(e):
    return ', '.join('%s=%s' % (k, v) for k, v in e.items()) if isinstance(e, dict) else str(e)

# ---------------------------------------------------------------- simple curves
def timer_after(f, B, o, items, n_of):
    """the timer moves forward by the number of samples of this cycle"""
    fi = finals(f, items)
    v = fi.get(o['sample'])
    if v is None:
        return False, 'the timer is not moved'
    d = sub(canon(after_loops(f, v)), ('ld', add(f.this(), I(o['sample']))))
    return is_size(f, B, d), 'the timer moves by %s' % tstr(d)

def size_atom(f, B, n):
    def more(t):
        if t[0] == 'size' and selfoff(f, t[1]) == B['bo']:
            return n
        if t[0] == 'ld' and selfoff(f, t[1]) in (B['cfg']['channels'], B['nch']):
            return 1
        if t[0] == 'ld' and selfoff(f, t[1]) == B['cfg']['out_buffer']:
            return n
        return None
    return more

def constant(ctx, prog, B, o):
    curve(ctx, prog, B, o, 'ConstantEnvelope', lambda e, i: e['v0'])

def setvalue(ctx, prog, B, o):
    curve(ctx, prog, B, o, 'SetValue', lambda e, i: e['v0'] if i < tdiv(e['t1'] - time_of(e), e['npf']) else e['v1'])

def curve(ctx, prog, B, o, n, want):
    """envelopes whose samples only depend on the timer at the start of the cycle"""
    f = prog.one(r'^%s::process\(' % n)
    ctx.fn(f)
    paths = []
    base = ('ld', add(f.this(), I(B['bo'])))
    cells = {add(f.this(), I(x)) for x in o.values()}
    for items, ex in ret_paths(f):
        k, why = alloc(f, B, items)
        if k is None:
            ctx.ob('curve', n, False, why, f.where(None))
            return
        ok, det = timer_after(f, B, o, items, None)
        ctx.ob('timer', n, ok, det, f.where(None))
        st = [e for x in items for e in walk_events([x]) if e.kind == 'store' and drop_version(e.addr) == add(f.this(), I(o['sample']))]
        res = straight(f, items, cells)
        # loads of the timer after it was moved would see the next cycle
        paths.append((items, res, [(drop_version(res(x.t)), x.v) for x in items if x.kind == 'cond']))
        late = [x for x in items if any(y.kind in ('store', 'fill') and y not in st and after(f, items, y, st) for y in walk_events([x]) if y.kind in ('store', 'fill'))]
        if late:
            raise AnalysisError('%s: samples are written after the timer has been moved' % n)
    bad = None
    try:
        for e in [g for g in grid() if g['v0'] != g['v1']]:
            for size_ in (0, 1, 3, 6):
                at = atoms(self_base(f), o, e, size_atom(f, B, size_))
                hit = 0
                for items, res, cs in paths:
                    if not all(bool(ev(t, at)) == v for t, v in cs):
                        continue
                    hit += 1
                    w = dict(writes(f, items, at, base))
                    got = [w.get(i) for i in range(size_)]
                    exp = [want(e, i) for i in range(size_)]
                    if set(w) - set(range(size_)) or any(g is None or isinstance(g, tuple) or not same(g, x) for g, x in zip(got, exp)):
                        bad = 'with %s and %d samples it gives %s instead of %s' % (show(e), size_, got, exp)
                        raise StopIteration
                if not hit:
                    raise AnalysisError('%s: no path for %s' % (n, show(e)))
    except StopIteration:
        pass
    except Unknown as u:
        bad = 'the samples depend on %s' % u
    ctx.ob('curve', n, bad is None, (bad or 'every sample has the value of the curve').replace('Fraction', ''), f.where(None))

def after(f, items, y, st):
    if not st:
        return False
    order = [e for x in items for e in walk_events([x])]
    return order.index(y) > order.index(st[-1]) and y not in st and selfoff(f, y.addr) is None

# ---------------------------------------------------------------- ramps
def linear(e, t):
    return e['v0'] + (e['v1'] - e['v0']) * Fraction(t - e['t0'], e['t1'] - e['t0'])

def exponential(e, t):
    v0 = e['v0']
    b = float(e['v1'] / (v0 if v0 else flt('0.000001')))
    x = float(Fraction(t - e['t0'], e['t1'] - e['t0']))
    return float(v0) * b ** x

def ramp(ctx, prog, B, o, n, curve_):
    f = prog.one(r'^%s::process\(' % n)
    ctx.fn(f)
    cell = add(f.this(), I(o['sample']))
    envs = [g for g in grid() if g['t1'] != g['t0'] and (curve_ is linear or g['v1'] > 0 and g['v0'] >= 0)]
    for items, ex in ret_paths(f):
        k, why = alloc(f, B, items)
        if k is None:
            ctx.ob('curve', n, False, why, f.where(None))
            continue
        wr = samples_written(f, B, effects(f, items))
        if not wr or any(len(e.loops) == 0 for e, off in wr):
            ctx.ob('curve', n, False, 'no sample is written' if not wr else 'a sample is written outside the filling loop', f.where(None))
            continue
        if any(covers(f, B, e.loops, off) not in ('interleaved', 'nested') for e, off in wr):
            ctx.ob('curve', n, False, 'the samples are not visited once each, in order', wr[0][0].ev.where())
            continue
        L = max((l for e, off in wr for l in e.loops), key=lambda l: -len(l.blocks))
        top = [x for x in items if x.kind == 'loop' and any(l is x.loop for l in wr[0][0].loops)][0]
        pre = finals(f, items[:items.index(top)])
        if o['sample'] in pre and canon(pre[o['sample']]) != ('ld', cell):
            ctx.ob('timer', n, False, 'the timer is moved before the first sample', f.where(None))
            continue
        bad, moved, inloop, hits = None, True, False, {}
        mb = list(L.bodies())
        for b in mb:
            res, fin, reg = iteration(f, L, b, cell)
            w = [e for e in b if e.kind == 'store' and any(e is q.ev for q, off in wr)]
            if len(w) != 1:
                bad = 'an iteration writes %d samples' % len(w)
                break
            sts = [e for e in b if e.kind == 'store' and drop_version(e.addr) == cell]
            closed = any(s[0] == 'iter' for s in subterms(drop_version(fin))) or not (sts or reg)
            inloop = inloop or bool(sts or reg)
            v, cs = drop_version(res(w[0].val)), [(drop_version(res(c.t)), c.v) for c in b if c.kind == 'cond' and not is_control(c, L)]
            for j, e in enumerate(envs):
                for it in (0, 2):
                    its = {l.header: it for l in wr[0][0].loops} if len(wr[0][0].loops) == 1 else {}
                    s = e['sample']
                    pos = s + it if closed else s        # timer position before this sample
                    def more(t):
                        if t == ('sigma',):
                            return s
                        if t[0] == 'iter' and t[1] in its:
                            return its[t[1]]
                    at = atoms(self_base(f), o, e, more)
                    try:
                        if not all(bool(ev(t, at)) == q for t, q in cs):
                            continue
                        hits[j] = hits.get(j, 0) + 1
                        got = ev(v, at)
                        if not same(got, curve_(e, time_of(e, pos))):
                            bad = bad or 'with %s the sample is %s instead of %s' % (show(e), float(got), float(curve_(e, time_of(e, pos))))
                        if (sts or reg) and ev(drop_version(fin), at) != pos + 1:
                            moved = False
                    except Unknown as u:
                        bad = bad or 'the sample depends on %s' % u
                    except (OverflowError, ZeroDivisionError, ValueError) as u:
                        raise AnalysisError('%s: %s' % (n, u))
        if not bad and len(hits) != len(envs):
            bad = 'some times are not handled by the filling loop'
        ctx.ob('curve', n, bad is None, bad or 'every sample has the value of the curve at the timer position before it', L.where())
        aft = [e for x in items[items.index(top) + 1:] for e in walk_events([x]) if e.kind == 'store' and drop_version(e.addr) == cell]
        if inloop:
            ctx.ob('timer', n, moved and not aft or moved and all(reg for _ in [0]), 'the timer moves by one per sample' if moved else 'the timer does not move by one per sample', L.where())
        else:
            d = sub(canon(after_loops(f, aft[-1].val)), ('ld', cell)) if aft else I(0)
            ctx.ob('timer', n, is_size(f, B, d), 'the timer moves by %s' % tstr(d), L.where())

# ---------------------------------------------------------------- timed envelope
def duration(ctx, prog, o):
    f = prog.one(r'^DurationEnvelope::start\(')
    ctx.fn(f)
    eo, du = member_via(prog, 'wit_dur_env'), member_via(prog, 'wit_dur_get')
    th = f.this()
    env = ('ld', add(th, I(eo)))
    now = mul(('ld', add(th, I(o['npf']))), ('udiv', ('ld', add(th, I(o['sample']))), ('ld', add(th, I(o['channels'])))))
    for items, ex in ret_paths(f):
        res = straight(f, items, {add(env, I(x)) for x in o.values()} | {add(th, I(x)) for x in o.values()})
        fi = {q: canon(res(w)) for q, w in finals(f, items, env).items()}
        st = [e for e in items if e.kind == 'vcall']
        want = {o['t0']: now, o['t1']: add(now, ('ld', add(th, I(du))))}
        ok = fi == want and [e.name for e in st] == ['start'] and drop_version(st[0].obj) == env and not finals(f, items)
        last = max(items.index(e) for e in items if e.kind == 'store') if fi else -1
        ctx.ob('restart', 'DurationEnvelope::start', ok and items.index(st[0]) > last, 'stores %s, then calls %s' % ({q: tstr(w) for q, w in fi.items()}, [e.name for e in st]), f.where(None))
    for w, memb in (('wit_dur_set', du), ('wit_dur_set_env', eo)):
        g = prog.one('^%s$' % w)
        for items, ex in ret_paths(g):
            fi = {q: canon(x) for q, x in finals(g, items, ('arg', 0)).items()}
            ctx.ob('accessor', w[4:], fi == {memb: ('arg', 1)}, 'stores %s' % {q: tstr(x) for q, x in fi.items()}, g.where(None))

# ---------------------------------------------------------------- chain of stages
def chain_fields(prog):
    cur = member_via(prog, 'wit_chain_current')
    lay = prog.layout('ChainEnvelope')
    base = prog.layout('BaseEnvelope')
    own = {k: v for k, v in lay.items() if k not in base and '.' not in k}
    vec = [v[0] for k, v in own.items() if v[2].startswith('std::vector<BaseEnvelope*')]
    f = prog.one(r'^ChainEnvelope::next_envelope\(')
    idx = None
    for items, ex in ret_paths(f):
        for off, v in finals(f, items).items():
            if off in [q[0] for q in own.values()] and off != cur:
                idx = off
    if len(vec) != 1 or idx is None:
        raise AnalysisError('the stages of a chain envelope were not found')
    return dict(cur=cur, vec=vec[0], idx=idx)

def chain(ctx, prog, B, o):
    c = chain_fields(prog)
    f = prog.one(r'^ChainEnvelope::next_envelope\(')
    ctx.fn(f)
    th = f.this()
    for items, ex in ret_paths(f):
        fi = finals(f, items)
        idx = ('ld', add(th, I(c['idx'])))
        nxt = ('ld', add(('ld', add(th, I(c['vec']))), mul(I(8), add(idx, I(1)))))
        cp = timer_copied(f, items, o, lambda a: a in (nxt, ('ld', add(th, I(c['cur'])))))
        ok = canon(fi.get(c['idx'], I(0))) == add(idx, I(1)) and drop_version(fi.get(c['cur'], I(0))) == nxt
        ctx.ob('next-stage', 'ChainEnvelope::next_envelope', ok and cp, 'stores %s, %s' % ({q: tstr(w) for q, w in fi.items()}, 'timer handed over' if cp else 'timer not handed over'), f.where(None))
    g = prog.one(r'^ChainEnvelope::start\(')
    ctx.fn(g)
    for items, ex in ret_paths(g):
        n = [e.name for e in items if e.kind in ('call', 'vcall')]
        ctx.ob('next-stage', 'ChainEnvelope::start', n == ['next_envelope'], 'calls %s' % n, g.where(None))
    f = prog.one(r'^ChainEnvelope::process\(')
    ctx.fn(f)
    for ok, rule, det, wh in chain_process(f, B, o, c):
        ctx.ob(rule, 'ChainEnvelope::process', ok, det, wh)

def timer_copied(f, items, o, is_target):
    """the own timer is copied to the stage's timer, field by field or at once"""
    th = f.this()
    got = set()
    for e in items:
        if e.kind == 'copy':
            a, s = drop_version(e.addr), drop_version(e.val)
            t = sub(a, I(o['timer']))
            if s == add(th, I(o['timer'])) and is_target(t):
                n = e.size[1] if e.size is not None and isconst(e.size) else 0
                got |= {k for k in ('sample', 'channels', 'npf') if o['timer'] + n > o[k]}
        elif e.kind == 'store':
            for k in ('sample', 'channels', 'npf'):
                if is_target(sub(drop_version(e.addr), I(o[k]))) and drop_version(e.val) == ('ld', add(th, I(o[k]))):
                    got.add(k)
        elif e.kind == 'call' and e.name == 'operator=' and len(e.args) == 2 and drop_version(e.args[1]) == add(th, I(o['timer'])) and is_target(sub(drop_version(e.args[0]), I(o['timer']))):
            got |= {'sample', 'channels', 'npf'}
    return got == {'sample', 'channels', 'npf'}

def chain_process(f, B, o, c):
    th = f.this()
    cur = ('ld', add(th, I(c['cur'])))
    own = lambda k: add(th, I(o[k]))
    for items, ex in ret_paths(f):
        lp = [x for x in items if x.kind == 'loop' and any(e.kind == 'vcall' and e.name == 'meta_process' for e in walk_events([x]))]
        if len(lp) != 1:
            yield False, 'chain-contiguous', 'stages are processed in %d loops' % len(lp), f.where(None)
            return
        # the assembled buffer becomes the own buffer after the loop
        adopted = None
        for e in items[items.index(lp[0]) + 1:]:
            if e.kind == 'call' and e.name in ('operator=', 'set_buffer') and len(e.args) == 2:
                adopted = e
        made = None
        k, why = alloc(f, B, items)
        if k is None:
            yield False, 'chain-contiguous', why, f.where(None)
            return
        src = handed(items, k)[-1] if items[k].kind == 'call' and items[k].name == 'operator=' else add(th, I(B['bo']))
    L = lp[0].loop
    pc = None                                            # the fill position: carried from zero
    for i in f.blocks[L.header]['ins']:
        if i['o'] == 'phi':
            out = [x for x in i['a'] if x[1] not in L.blocks]
            if len(out) == 1 and f.op(out[0][0]) == I(0):
                pc = i['i']
    if pc is None:
        yield False, 'chain-contiguous', 'no fill position starting at zero', L.where()
        return
    p = ('phi', pc)
    back = [x[0] for x in f.ins[pc]['a'] if x[1] in L.blocks][0]
    envs = []
    for out in (1, 4, 9):
        for pr in range(0, out, 3):
            for npf in (1, 3):
                for s in (0, 2, 5):
                    for t1 in (-1, 0, 1, 3 * npf, 4 * npf + 1, 30):
                        envs.append(dict(out=out, p=pr, npf=npf, channels=1, sample=s, t1=t1))
    seen = set()
    for b in L.bodies():
        wh = L.where()
        cells = {'sample': own('sample'), 'cur': add(th, I(c['cur'])), 'idx': add(th, I(c['idx'])), 'out': add(cur, I(B['cfg']['out_buffer']))}
        res, fin = iteration_cells(f, L, b, cells)
        cl = lambda t: subst(drop_version(res(t)), lambda x: cur if x == ('sigma', 'cur') else None)
        atomenv = lambda e: (lambda t: catom(f, B, o, c, cur, p, t, e))
        runs = [e for e in b if e.kind == 'vcall' and e.name == 'meta_process' and cl(e.obj) == cur]
        gets = [e for e in b if e.kind == 'vcall' and e.name == 'get_buffer' and cl(e.obj) == cur]
        if len(runs) != 1 or len(gets) != 1 or b.index(runs[0]) > b.index(gets[0]):
            yield False, 'chain-contiguous', 'an iteration processes the stage %d times and takes its buffer %d times' % (len(runs), len(gets)), wh
            return
        outs = [e for e in b[:b.index(runs[0])] if e.kind == 'store' and cl(e.addr) == add(cur, I(B['cfg']['out_buffer']))]
        if not outs:
            yield False, 'chain-contiguous', 'the stage is not told how many samples to give', wh
            return
        n = cl(outs[-1].val)
        adv = sub(cl(f.lift(f.op(back))), p)
        nxt = [e for e in b if e.kind == 'call' and e.name == 'next_envelope']
        inline = fin['idx'] != ('sigma', 'idx')
        smp = sub(cl(fin['sample']), ('sigma', 'sample'))
        conds = [(cl(x.t), x.v, x) for x in b if x.kind == 'cond']
        cs = [(t, v) for t, v, x in conds]
        effs = [e for e in effects(f, b) if e.ev.kind in ('store', 'copy', 'fill') and e.ev.addr is not None and refers(cl(e.ev.addr), src)]
        bad = None
        for k, e in enumerate(envs):
            at = atomenv(e)
            try:
                if not all(bool(ev(t, at)) == v for t, v in cs):
                    continue
                seen.add(k)
                t = e['npf'] * (e['sample'] // e['channels'])
                rem = tdiv(e['t1'] - t, e['npf'])
                want = e['out'] - e['p'] if e['t1'] < 0 else max(1, min(e['out'] - e['p'], rem))
                t2 = e['npf'] * ((e['sample'] + want) // e['channels'])
                sw = e['t1'] >= 0 and t2 >= e['t1']
                if ev(n, at) != want:
                    bad = 'with %s the stage is asked for %s samples instead of %s' % (show(e), ev(n, at), want)
                elif ev(adv, at) != want or ev(smp, at) != want:
                    bad = 'with %s the fill position moves by %s and the timer by %s for %s samples' % (show(e), ev(adv, at), ev(smp, at), want)
                elif bool(nxt or inline) != sw:
                    bad = 'with %s the next stage %s' % (show(e), 'is entered early' if nxt or inline else 'is not entered')
                else:
                    det = moved_samples(f, effs, cl, src, gets[0], p, want, at, e)
                    bad = det
            except Unknown as u:
                bad = 'the hand-over depends on %s' % u
            if bad:
                break
        if not bad and len(nxt) > 1:
            bad = 'several stages are skipped at once'
        if not bad and nxt and any(b.index(e) > b.index(nxt[0]) for e in runs + gets):
            bad = 'the stage is processed after it was left'
        if not bad and nxt:
            st = [e for e in b if e.kind == 'store' and drop_version(e.addr) == own('sample')]
            if st and b.index(st[-1]) > b.index(nxt[0]):
                bad = 'the timer is moved after it was handed to the next stage'
        yield bad is None, 'chain-contiguous', bad or 'the stage gives its samples, position and timer move with them', wh
    yield len(seen) == len(envs), 'chain-contiguous', 'every position and time is handled' if len(seen) == len(envs) else 'some positions are not handled: %s' % show([e for k, e in enumerate(envs) if k not in seen][0]), L.where()
    # the cycle ends only when the own buffer is full
    ok = True
    for items, ex in ret_paths(f):
        it = next(x for x in items if x.kind == 'loop' and x.loop is L)
        if any(e.kind in ('vcall', 'call', 'store') for e in it.partial):
            ok = False
        for e in envs:
            for q in range(0, e['out'] + 1):
                e2 = dict(e, p=q)
                at = lambda t: catom(f, B, o, c, cur, p, t, e2)
                cs = [(drop_version(x.t), x.v) for x in it.partial if x.kind == 'cond']
                try:
                    if all(bool(ev(t, at)) == v for t, v in cs) and q < e['out']:
                        ok = False
                except Unknown:
                    ok = False
    yield ok, 'chain-contiguous', 'the cycle ends when the configured number of samples is reached' if ok else 'the cycle can end early', L.where()
    # several channels: the buffer holds out*channels samples, the loop gives out
    multi = any(s[0] == 'ld' and selfoff(f, s[1]) in (B['cfg']['channels'], B['nch']) for x in L.fn.blocks[L.header]['ins'] if x['o'] == 'icmp' for s in subterms(f.term(x['i'])))
    size_used = any(s[0] == 'size' for x in L.fn.blocks[L.header]['ins'] if x['o'] == 'icmp' for s in subterms(f.term(x['i'])))
    yield multi or size_used, 'chain-fills-all-channels', 'the stages give the configured size, not size times channels' if not (multi or size_used) else 'all channels are filled', L.where()

def refers(a, src):
    return any(s[0] == 'ld' and s[1] == src for s in subterms(a))

def catom(f, B, o, c, cur, p, t, e):
    if t == p:
        return e['p']
    if t == ('sigma', 'sample'):
        return e['sample']
    if t == ('sigma', 'out'):
        return e['out']
    if t[0] == 'ld':
        a = drop_version(t[1])
        so = selfoff(f, a)
        if so is not None:
            for k in ('npf', 'channels', 'sample'):
                if so == o[k]:
                    return e[k]
            if so == B['cfg']['out_buffer']:
                return e['out']
            if so == B['cfg']['channels']:
                return e['channels']
        d = sub(a, cur)
        if isconst(d):
            for k in ('npf', 'channels', 'sample', 't1'):
                if d[1] == o[k]:
                    return e[k]
    if t[0] == 'size':
        return e['out']
    return None

def moved_samples(f, effs, cl, src, get, p, want, at, e):
    """exactly the first `want` samples of the stage land at the fill position"""
    got = {}
    taken = f.term(get.ins['i'])
    for x in effs:
        a = cl(x.ev.addr)
        base = [s for s in subterms(a) if s[0] == 'ld' and s[1] == src][0]
        loops = x.loops[-1:] if x.loops else ()
        cnt = 1
        if loops:
            cc = loops[-1].count()
            if cc is None or len(x.loops) > 1:
                raise Unknown('an uncounted copy')
            cnt = max(0, ev(cl(cc), at))
        if x.ev.kind == 'copy':
            cnt = ev(cl(x.ev.size), at) // 8
        for i in range(cnt):
            at2 = lambda t: i if loops and t == ('iter', loops[-1].header) else at(t)
            off = ev(sub(a, base), at2)
            v = cl(x.ev.val)
            if x.ev.kind == 'copy':
                off, s = off + 8 * i, v
                sidx = src_index(f, s, taken, at2)
                sidx = None if sidx is None else sidx + i
            else:
                sidx = src_index(f, v[1], taken, at2) if v[0] == 'ld' else None
            got[off // 8] = sidx
    exp = {e['p'] + i: i for i in range(want)}
    if not effs and want:
        return 'no samples of the stage are kept'
    if got != exp:
        return 'with %s the samples land at %s instead of %s' % (show(e), got, exp)
    return None

def src_index(f, a, taken, at):
    for s in subterms(a):
        if s[0] == 'ld' and sub(a, s) is not None and (s[1] == taken or s[1][0] == 'alloca'):
            try:
                return ev(sub(a, s), at) // 8
            except Unknown:
                continue
    return None

# ---------------------------------------------------------------- gap stages
def stage(f, items, x, upto, o):
    """parameters of a freshly built stage: what is stored into it before `upto`"""
    out = {}
    res = straight(f, items, {add(x, I(v)) for v in o.values()})
    for e in items[:upto]:
        if e.kind == 'store':
            d = sub(drop_version(e.addr), x)
            if isconst(d):
                for k in ('t0', 't1', 'v0', 'v1'):
                    if d[1] == o[k]:
                        out[k] = canon(res(unphi(f, items, e.val)))
                if d[1] == 0 and e.val[0] in ('P', 'gl'):
                    for s in subterms(e.val):
                        if s[0] == 'gl':
                            out['class'] = s[1]
        elif e.kind == 'fill':
            d = sub(drop_version(e.addr), x)
            if isconst(d) and e.size is not None and isconst(e.size):
                for k in ('t0', 't1', 'v0', 'v1'):
                    if d[1] <= o[k] < d[1] + e.size[1]:
                        out[k] = I(0)
    return out

def gap(ctx, prog, o):
    c = chain_fields(prog)
    f = prog.one(r'^ChainEnvelope::create_internal\(')
    ctx.fn(f)
    th = f.this()
    idx = ('arg', 1)
    envs = ('ld', add(th, I(c['vec'])))
    el = lambda k: ('ld', add(envs, mul(I(8), k)))
    n = size(add(th, I(c['vec'])))
    for items, ex in ret_paths(f):
        ins = [i for i, e in enumerate(items) if e.kind == 'call' and e.name in ('insert', 'emplace', 'push_back') and e.args and selfoff(f, e.args[0]) == c['vec']]
        new = [f.term(e.ins['i']) for e in items if e.kind == 'call' and e.name in ('new', 'operator new')]
        if len(ins) != 1 or len(new) != 1:
            ctx.ob('gap-stage', 'ChainEnvelope::create_internal', False, '%d stages built, %d inserted' % (len(new), len(ins)), f.where(None))
            continue
        e = items[ins[0]]
        st = stage(f, items, new[0], len(items), o)
        bad = None
        if e.name == 'push_back' or drop_version(e.args[1]) != add(envs, mul(I(8), idx)):
            bad = 'inserted at %s' % (tstr(e.args[1]) if len(e.args) > 1 else '?')
        first = next((v == (t[1] == 'eq') for t, v in [(canon(x.t), x.v) for x in items if x.kind == 'cond'] if t[0] == 'icmp' and t[1] in ('eq', 'ne') and {t[2], t[3]} == {idx, I(0)}), None)
        lastc = None
        for t, v in [(canon(x.t), x.v) for x in items if x.kind == 'cond']:
            if t[0] == 'icmp' and t[1] in ('slt', 'ult') and (t[2], t[3]) == (idx, n):
                lastc = not v
            if t[0] == 'icmp' and t[1] in ('sle', 'ule') and (t[2], t[3]) == (n, idx):
                lastc = v
        def field(k):
            v = st.get(k)
            return subst(v, lambda y: None) if v is not None else None
        prev = el(sub(idx, I(1)))
        for k, want0, want1 in (('t0', I(0), ('ld', add(prev, I(o['t1'])))), ('v0', ('ld', add(th, I(o['v0']))), ('ld', add(prev, I(o['v1']))))):
            for cs, v in ites([], st.get(k, ('none',))):
                d = dict((canon(q), w) for q, w in cs)
                fl = first
                for q, w in d.items():
                    if q[0] == 'icmp' and q[1] in ('eq', 'ne') and {q[2], q[3]} == {idx, I(0)}:
                        fl = w == (q[1] == 'eq')
                if fl is None:
                    bad = bad or 'the first stage is not told apart'
                elif canon(v) not in ((want0,) if fl else (want1,)) and not (k == 'v0' and v == ('f', '0') and want0 == ('f', '0')):
                    bad = bad or 'the gap %s at %s' % ('starts' if k == 't0' else 'holds', tstr(v))
        for cs, v in ites([], st.get('t1', ('none',))):
            ll = lastc
            for q, w in [(canon(a), b_) for a, b_ in cs]:
                if q[0] == 'icmp' and q[1] in ('slt', 'ult') and (q[2], q[3]) == (idx, n):
                    ll = not w
                if q[0] == 'icmp' and q[1] in ('sle', 'ule') and (q[2], q[3]) == (n, idx):
                    ll = w
            want = I(-1) if ll else ('ld', add(el(idx), I(o['t0'])))
            if ll is None or canon(v) != want:
                bad = bad or 'the gap ends at %s' % tstr(v)
        cl = st.get('class', '')
        if 'InternalEnvelope' not in cl and 'ConstantEnvelope' not in cl:
            bad = bad or 'the gap is filled by a %s' % cl
        ctx.ob('gap-stage', 'ChainEnvelope::create_internal', bad is None, bad or 'holds the last value until the next stage', f.where(None))
    optimise(ctx, prog, o, c)

def optimise(ctx, prog, o, c):
    f = prog.one(r'^ChainEnvelope::optimize\(')
    ctx.fn(f)
    th = f.this()
    envs = ('ld', add(th, I(c['vec'])))
    lps = [l for l in f.loops.values()]
    if len(lps) != 1:
        raise AnalysisError('optimize has %d loops' % len(lps))
    L = lps[0]
    lay = prog.layout('ChainEnvelope')
    ints = [v[0] for k, v in lay.items() if v[2] == 'int' and v[0] > o['v1'] and v[0] != c['idx']]
    best = None
    for off in ints:
        out = []
        for b in L.bodies():
            cells = {'k': add(th, I(off))}
            res, fin = iteration_cells(f, L, b, cells)
            k = ('sigma', 'k')
            cl = lambda t: canon(res(t))
            el = lambda j: ('ld', add(envs, mul(I(8), j)))
            a, b_ = ('ld', add(el(k), I(o['t1']))), ('ld', add(el(add(k, I(1))), I(o['t0'])))
            touching = None
            for x in b:
                if x.kind == 'cond':
                    t = cl(x.t)
                    if t[0] == 'icmp' and t[1] == 'slt' and (t[2], t[3]) == (a, b_):
                        touching = not x.v
                    if t[0] == 'icmp' and t[1] == 'sle' and (t[2], t[3]) == (b_, a):
                        touching = x.v
            ci = [e for e in b if e.kind == 'call' and e.name == 'create_internal']
            ok = touching is not None and cl(fin['k']) == add(k, I(1)) and (len(ci) == 0 if touching else len(ci) == 1 and cl(ci[0].args[1]) == add(k, I(1)))
            out.append((ok, 'a pair that %s: %d gap stages, index becomes %s' % ('touches' if touching else 'leaves a gap' if touching is False else 'was not compared', len(ci), tstr(cl(fin['k'])))))
        s = sum(1 for q in out if q[0])
        if best is None or s > best[0]:
            best = (s, out)
    for ok, det in best[1]:
        ctx.ob('gap-stage', 'ChainEnvelope::optimize', ok, det, L.where())
    for items, ex in ret_paths(f):
        ci = [e for e in items if e.kind == 'call' and e.name == 'create_internal']
        ok = len(ci) == 1 and canon(ci[0].args[1]) == size(add(th, I(c['vec'])))
        ctx.ob('gap-stage', 'ChainEnvelope::optimize', ok, 'a last stage is added %d times' % len(ci), f.where(None))
    g = prog.one(r'^ChainEnvelope::add_envelope\(')
    ctx.fn(g)
    for items, ex in ret_paths(g):
        seq = [(e.name, selfoff(g, e.args[0]) if e.args else None) for e in items if e.kind == 'call']
        push = [i for i, q in enumerate(seq) if q == ('push_back', c['vec'])]
        opt = [i for i, q in enumerate(seq) if q[0] == 'optimize']
        ok = len(push) == 1 and len(opt) == 1 and push[0] < opt[0]
        if ok:
            e = [e for e in items if e.kind == 'call' and e.name == 'push_back' and selfoff(g, e.args[0]) == c['vec']][0]
            v = drop_version(e.args[1])
            ok = v == ('arg', 1) or v[0] == 'alloca' and any(x.kind == 'store' and drop_version(x.addr) == v and x.val == ('arg', 1) for x in items) or ('ld', v) == ('arg', 1)
        ctx.ob('gap-stage', 'ChainEnvelope::add_envelope', ok, 'does %s' % seq, g.where(None))

# ---------------------------------------------------------------- ADSR
def adsr(ctx, prog, o):
    f = prog.one(r'^ADSREnvelope::start\(')
    ctx.fn(f)
    th = f.this()
    a, d, s = (('ld', add(th, I(member_via(prog, 'wit_adsr_' + k)))) for k in ('attack', 'decay', 'sustain'))
    want = [('LinearRamp', ('f', '0'), ('f', '1'), I(0), a), ('LinearRamp', ('f', '1'), s, a, add(a, d)), ('ConstantEnvelope', s, s, add(a, d), I(-1))]
    for items, ex in ret_paths(f):
        got = []
        starts = []
        for i, e in enumerate(items):
            if e.kind == 'call' and e.name == 'add_envelope':
                x = drop_version(e.args[1])
                st = stage(f, items, x, i, o)
                got.append((st.get('class', ''), nf(st.get('v0')), nf(st.get('v1')), st.get('t0'), st.get('t1')))
            if e.kind in ('call', 'vcall') and e.name in ('start', 'next_envelope'):
                starts.append((i, len(got)))
        bad = None
        if len(got) != 3:
            bad = '%d stages are added' % len(got)
        else:
            for k, (g, w) in enumerate(zip(got, want)):
                skip = (2,) if k == 2 else ()            # a constant stage never reaches its end value
                if w[0] not in g[0] or any(g[j] != (nf(w[j]) if j in (1, 2) else w[j]) for j in range(1, 5) if j not in skip):
                    bad = bad or '%s stage is %s from %s to %s over %s to %s' % (('attack', 'decay', 'sustain')[k], g[0], *[tstr(q) if q else '?' for q in g[1:]])
        if not bad and [n for i, n in starts] != [3]:
            bad = 'the first stage is entered %d times' % len(starts)
        ctx.ob('adsr-stages', 'ADSREnvelope::start', bad is None, bad or 'attack, decay, sustain, then the first stage is entered', f.where(None))
    c = prog.one('^wit_adsr_ctor$')
    for items, ex in ret_paths(c):
        fi = finals(c, items, ('arg', 0))
        for k, n in (('attack', 1), ('decay', 2), ('sustain', 3), ('release', 4)):
            off = member_via(prog, 'wit_adsr_' + k)
            v = fi.get(off)
            ctx.ob('adsr-stages', 'ADSREnvelope(%s)' % k, v is not None and canon(v) == ('arg', n), 'stores %s' % (tstr(v) if v else 'nothing'), c.where(None))

def nf(t):
    if t is None:
        return None
    return ('f', '%g' % float(num(t))) if t[0] == 'f' else t
