"""C09 counters and latency meters: every operation is measured and accumulated exactly once."""
from fin import *
LEVEL = 'other'
EXPLANATION = ('On every path: the counter adds one operation and the size of the adopted buffer; the latency module reads the clock directly before and directly after running the module behind it (nothing else between), '
               'and the values finally stored are symbolically equal to: operation time = difference of the two readings, totals = old total plus this operation, ideal duration = frames of this buffer times the frame duration of this buffer\'s sample rate, latency = time minus ideal duration. '
               'Accessors return those fields, averages divide by the number of operations and are guarded against zero, reset clears every accumulator and the timer\'s position and takes the current time. No 64-bit time is cut to 32 bits.')
ASSUMPTIONS = ['buffers hold whole frames; counts stay below 2^31']

def run(ctx):
    prog = ctx.program(['^wit_', r'^LatencyModule::', r'^Counter::process'], opaque=[r'^get_time\('], transparent=['^Counter::', '^ChainTimer::'])
    bo = c05().layout_buffer(prog)
    nch, rate = bo + 24, bo + 32
    bl = {k: v for k, v in prog.layout('BaseModule').items()}
    b = [(k, v) for k, v in bl.items() if v[0] == bo and v[2].startswith('dsp::buff::Buffer')][0]
    BL = prog.layout(b[1][2])
    nch, rate = bo + BL['nchannels'][0], bo + BL['sample_rate'][0]
    m = {k: member_via(prog, 'wit_' + k) for k in ('cnt_processed', 'cnt_samples', 'lat_start', 'lat_time', 'lat_total_time', 'lat_latency', 'lat_sum')}
    tl = prog.layout('ChainTimer')
    ts = {k: member_via(prog, 'wit_tm_' + k) for k in ('sample', 'channels', 'npf')}
    lay = prog.layout('LatencyModule')
    to = [o for k, (o, s, ty) in lay.items() if ty == 'ChainTimer']
    if len(to) != 1:
        raise AnalysisError('the timer of the latency module was not found')
    to = to[0]
    # the counter
    f = prog.one(r'^Counter::process\(')
    ctx.fn(f)
    cnt_ok = True
    for items, ex in ret_paths(f):
        ok, det = counts(f, items, m, bo)
        cnt_ok = cnt_ok and ok
        ctx.ob('counts-once', 'Counter::process', ok, det, f.where(None))
    f = prog.one('^wit_cnt_reset$')
    for items, ex in ret_paths(f):
        fi = finals(f, items, ('arg', 0))
        ok = fi.get(m['cnt_processed']) == I(0) and fi.get(m['cnt_samples']) == I(0)
        ctx.ob('reset', 'Counter::reset', ok, 'clears %s' % sorted(fi), f.where(None))
    # the latency module
    f = prog.one(r'^LatencyModule::meta_process\(')
    ctx.fn(f)
    for items, ex in ret_paths(f):
        ok, det, wh = measure(prog, f, items, m, ts, to, bo, nch, rate)
        ctx.ob('measures', 'LatencyModule::meta_process', ok, det, wh)
    f = prog.one(r'^LatencyModule::reset\(')
    ctx.fn(f)
    for items, ex in ret_paths(f):
        fi = finals(f, items)
        clk = {f.term(e.ins['i']) for e in items if e.kind == 'call' and e.name == 'get_time'}
        calls = [e.name for e in items if e.kind in ('call', 'vcall') and e.name != 'get_time']
        miss = [k for k in ('lat_time', 'lat_total_time', 'lat_latency', 'lat_sum') if fi.get(m[k]) != I(0)]
        if 'reset' not in calls:
            miss += [k for k in ('cnt_processed', 'cnt_samples') if fi.get(m[k]) != I(0)]
            if fi.get(to + ts['sample']) != I(0):
                miss.append('timer position')
        if fi.get(m['lat_start']) not in clk:
            miss.append('start time')
        ctx.ob('reset', 'LatencyModule::reset', not miss, 'not restarted: %s' % miss if miss else 'everything restarted, start time is now', f.where(None))
    f = prog.one(r'^LatencyModule::start\(')
    ctx.fn(f)
    for items, ex in ret_paths(f):
        clk = {f.term(e.ins['i']) for e in items if e.kind == 'call' and e.name == 'get_time'}
        ctx.ob('start-time', 'LatencyModule::start', finals(f, items).get(m['lat_start']) in clk, 'start time is set to %s' % tstr(finals(f, items).get(m['lat_start'], ('none',))), f.where(None))
    ld = lambda k: ('ld', add(('arg', 0), I(k)))
    ideal = mul(ld(to + ts['npf']), ('udiv', ld(to + ts['sample']), ld(to + ts['channels'])))
    plain = {'wit_cnt_processed': ld(m['cnt_processed']), 'wit_cnt_samples': ld(m['cnt_samples']), 'wit_lat_start': ld(m['lat_start']), 'wit_lat_time': ld(m['lat_time']), 'wit_lat_total_time': ld(m['lat_total_time']),
             'wit_lat_latency': ld(m['lat_latency']), 'wit_lat_sum': ld(m['lat_sum']), 'wit_lat_expected': ideal, 'wit_lat_total_latency': sub(ld(m['lat_total_time']), ideal)}
    for w, want in plain.items():
        f = prog.one('^%s$' % w)
        ctx.fn(f)
        for cs, v, items in cases(f):
            ctx.ob('accessor', w[4:], canon(v) == want, 'returns %s' % tstr(v), f.where(None))
    f = prog.one('^wit_lat_elapsed$')
    for cs, v, items in cases(f):
        clk = [f.term(e.ins['i']) for e in items if e.kind == 'call' and e.name == 'get_time']
        ctx.ob('accessor', 'lat_elapsed', len(clk) == 1 and canon(v) == canon(sub(clk[0], ld(m['lat_start']))), 'returns %s' % tstr(v), f.where(None))
    for w, tot in (('wit_lat_avg_time', 'lat_total_time'), ('wit_lat_avg_latency', 'lat_sum')):
        f = prog.one('^%s$' % w)
        ctx.fn(f)
        n = ld(m['cnt_processed'])
        seen = set()
        for cs, v, items in cases(f):
            z = [is_zero_test(c, b_, n) for c, b_ in cs]
            z = [x for x in z if x is not None]
            v = canon(v)
            if True in z:
                ok = v == I(0)
                seen.add('zero')
            else:
                ok = False in z and v == ('udiv', ld(m[tot]), n)
                seen.add('some')
            ctx.ob('average', w[4:], ok, '%s operations: returns %s' % ('no' if True in z else 'some' if False in z else 'possibly no', tstr(v)), f.where(None))
        ctx.ob('average', w[4:], seen == {'zero', 'some'}, 'cases %s' % sorted(seen), f.where(None))
    k = 0
    for f in prog.fns.values():
        if not re.search(r'^(LatencyModule::|ChainTimer::|wit_lat_|get_time)', f.dem):
            continue
        k += 1
        bad = narrowings(f, lambda t: any(s[0] == 'call' and 'get_time' in str(s[2]) or (s[0] == 'ld' and off(s) in {m['lat_start'], m['lat_time'], m['lat_total_time'], m['lat_latency'], m['lat_sum'], to + ts['npf']}) for s in subterms(t)))
        ctx.ob('full-width', f.dem, not bad, 'a time is cut to 32 bits: %s' % tstr(bad[0][1]) if bad else 'no time is narrowed', f.where(bad[0][0]) if bad else f.where(None))
    ctx.need('functions handling times', k, 12)

def c05():
    import c05 as m
    return m

def off(s):
    b, o = base_off(s[1])
    return o if b is not None and b[0] == 'arg' else None

def counts(f, items, m, bo):
    fi = finals(f, items)
    n, s = add(f.this(), I(m['cnt_processed'])), add(f.this(), I(m['cnt_samples']))
    a = canon(fi.get(m['cnt_processed'], I(-1)))
    b = canon(fi.get(m['cnt_samples'], I(-1)))
    if a != add(('ld', n), I(1)):
        return False, 'the operation count becomes %s' % tstr(a)
    if b != add(('ld', s), size(add(f.this(), I(bo)))):
        return False, 'the sample count becomes %s' % tstr(b)
    if [e for e in items if e.kind in ('call', 'vcall', 'copy', 'fill', 'loop')] or set(fi) - {m['cnt_processed'], m['cnt_samples']}:
        return False, 'something else is changed too'
    return True, 'one operation, all samples of the buffer'

def measure(prog, f, items, m, ts, to, bo, nch, rate):
    ev = [e for e in items if e.kind in ('call', 'vcall', 'loop')]
    if any(e.kind == 'loop' for e in ev):
        return False, 'measured in a loop', f.where(None)
    up = [i for i, e in enumerate(ev) if e.kind in ('call', 'vcall') and e.name == 'meta_process']
    clk = [i for i, e in enumerate(ev) if e.name == 'get_time']
    if len(up) != 1:
        return False, 'the module behind runs %d times' % len(up), f.where(None)
    if up[0] == 0 or up[0] + 1 >= len(ev) or up[0] - 1 not in clk or up[0] + 1 not in clk:
        return False, 'the clock is not read directly before and after the module behind runs', ev[up[0]].where()
    t0, t1 = f.term(ev[up[0] - 1].ins['i']), f.term(ev[up[0] + 1].ins['i'])
    ld = lambda k: ('ld', add(f.this(), I(k)))
    fi = {k: canon(v) for k, v in finals(f, items).items()}
    op = canon(sub(t1, t0))
    sz = size(add(f.this(), I(bo)))
    npf = ('udiv', I(1000000000), ('fptosi', ld(rate)))
    lat = sub(op, mul(npf, ('udiv', sz, ld(nch))))
    want = {m['lat_time']: ('operation time', op), m['lat_total_time']: ('total time', add(ld(m['lat_total_time']), op)), m['lat_latency']: ('latency', lat),
            m['lat_sum']: ('sum of latencies', add(ld(m['lat_sum']), lat)), to + ts['npf']: ('frame duration', npf), to + ts['channels']: ('timer channels', ld(nch)),
            to + ts['sample']: ('timer position', add(ld(to + ts['sample']), sz))}
    for k, (n, w) in want.items():
        if fi.get(k) != canon(w):
            return False, 'the %s becomes %s' % (n, tstr(fi[k]) if k in fi else '(unchanged)'), f.where(None)
    if m['lat_start'] in fi:
        return False, 'the start time is changed', f.where(None)
    c = [e for e in ev if e.name == 'process' and e.kind == 'call' and f.is_self(e.obj) and 'Counter::process' in e.full]
    if not ((len(c) == 1 and m['cnt_processed'] not in fi and m['cnt_samples'] not in fi) or (not c and counts_in(f, fi, m, sz))):
        return False, 'the operation is counted %d times' % len(c), f.where(None)
    if c:
        gb = [e for e in ev if e.name == 'get_buffer']
        if not gb or ev.index(gb[0]) > ev.index(c[0]):
            return False, 'the counter runs before the new buffer is adopted', c[0].where()
    return True, 'clock readings bracket the upstream run; totals, latency, timer and count updated once', f.where(None)

def counts_in(f, fi, m, sz):
    ld = lambda k: ('ld', add(f.this(), I(k)))
    return fi.get(m['cnt_processed']) == add(ld(m['cnt_processed']), I(1)) and fi.get(m['cnt_samples']) == add(ld(m['cnt_samples']), sz)
