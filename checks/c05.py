"""C05 buffer handoff: each processing step pulls upstream once, adopts the whole buffer, then processes it once."""
from chainsim import *
LEVEL = 'other'
EXPLANATION = ('For every module class, every path of the processing entry point must pull the upstream neighbour once, then take its buffer once, store that very buffer (sample storage, channel count and sample rate, i.e. every byte of the '
               'buffer member) as its own, and only then run its own processing once; sources run their processing once and pull nothing; the down mixer keeps one buffer per input in a freshly emptied list; the period sink repeats the whole '
               'sequence exactly its configured number of times. Paths, call targets and stores are those of the normalised final overriders.')
EXPLANATION += ' Code whose form these rules cannot see is followed instead by abstract interpretation over abstract neighbour modules (up to 65 inputs, every field a symbol, branches on unknown values refused), where the same effects must be found.'
ASSUMPTIONS = ['get_buffer of the upstream module hands over its own buffer (checked for every class in the repository by the same rule set)']
NAMES = {'meta_process', 'get_buffer', 'process'}

def layout_buffer(prog):
    return member_via(prog, 'wit_base_buffer')

def adopted(f, items, start, boff, bsize, src):
    """the value of the own buffer after items[start:] is exactly the buffer at term src, directly or through local buffers: (ok, detail)"""
    place = lambda t: ('self' if f.is_self(x[0]) else x[0], x[1]) if (x := base_off(drop_version(t)))[0] is not None else (drop_version(t), 0)
    src = place(src)
    vec, byte = {}, {}
    vof = lambda p: vec.get(p, p)
    for e in items[start:]:
        if e.kind == 'call' and len(e.args) == 2 and (e.name in ('operator=', 'swap', 'vector') and 'vector' in e.full or e.name in ('Buffer', 'AudioBuffer')):
            d, s = place(e.args[0]), place(e.args[1])
            if e.name == 'swap':
                vec[d], vec[s] = vof(s), vof(d)
                continue
            vec[d] = vof(s)
            if '&&' in e.full.rsplit('(', 1)[-1] and d != s:
                vec[s] = ('emptied', s)
            if e.name not in ('operator=', 'vector'):
                for k in range(24, bsize):
                    byte[d[0], d[1] + k] = byte.get((s[0], s[1] + k), (s[0], s[1] + k))
        elif e.kind in ('store', 'copy'):
            d = place(e.addr)
            if d[0] != 'self' and d[0][0] != 'alloca':
                continue
            n = e.size if e.kind == 'store' else (e.size[1] if isconst(e.size) else 0)
            s = drop_version(e.val)
            s = s[1] if (e.kind == 'store' and s[0] == 'ld') else (s if e.kind == 'copy' else None)
            s = place(s) if s is not None else None
            new = {(d[0], d[1] + k): byte.get((s[0], s[1] + k), (s[0], s[1] + k)) if s else None for k in range(n)}
            byte.update(new)
    if vec.get(('self', boff)) != src:
        return False, 'the samples of the upstream buffer do not become the own buffer'
    rest = [k for k in range(24, bsize) if byte.get(('self', boff + k)) != (src[0], src[1] + k)]
    if rest:
        return False, 'channel count / sample rate of the upstream buffer are not adopted (bytes %s)' % rest[:4]
    return True, ''

def seq_ok(prog, c, f, items, boff, bsize, up='up'):
    st = []
    for k, it in enumerate(items):
        if it.kind in ('vcall', 'call') and it.name in NAMES:
            st.append((k, it, target_of(f, it.obj)))
        elif it.kind == 'loop':
            for e in walk_events([it]):
                if e.kind in ('vcall', 'call') and e.name in NAMES:
                    return False, 'upstream or own processing called inside a loop', e.where()
    if any(e.kind == 'vcall' and e.name == 'process' and t == 'self' for k, e, t in st):
        # qualified calls to a base class's step are helpers of the hook, not the hook
        st = [x for x in st if not (x[1].kind == 'call' and x[1].name == 'process' and x[2] == 'self')]
    names = [(e.name, t) for k, e, t in st]
    want = [('meta_process', up), ('get_buffer', up), ('process', 'self')]
    if names != want:
        return False, 'processing steps are %s' % ', '.join('%s on %s' % x for x in names), f.where(None)
    k, e, t = st[1]
    src = f.term(e.ins['i'])
    ok, det = adopted(f, items[:st[2][0]], k, boff, bsize, src)
    return ok, det, e.where()

def run(ctx):
    prog = ctx.program([r'::(meta_process|get_buffer|set_buffer)\(', '^wit_'])
    slots = base_vt(prog)
    boff = layout_buffer(prog)
    lay = prog.layout('BaseModule')
    bsize = [v[1] for k, v in lay.items() if v[0] == boff and v[2].startswith('dsp::buff::Buffer')]
    if len(bsize) != 1 or bsize[0] < 40:
        raise AnalysisError('buffer member of the module base not identified')
    bsize = bsize[0]
    n = m_ = 0
    for c in classes(prog):
        m = mangled_overrider(prog, c, slots, 'meta_process')
        if m in (None, '__cxa_pure_virtual'):
            continue
        f = overrider(prog, c, slots, 'meta_process')
        ctx.fn(f)
        n += 1
        ok, det, wh = either(judge(prog, c, f, boff, bsize), lambda: handoff_any(prog, c, f, slots))
        ctx.ob('handoff', c.name + '::meta_process', ok, det, wh)
    ctx.need('processing entry points', n, 45)
    for c in classes(prog):
        m = mangled_overrider(prog, c, slots, 'get_buffer')
        f = overrider(prog, c, slots, 'get_buffer')
        if f is None or fn_class(f) == 'ModuleMixUp':       # copies: judged by C06
            continue
        ctx.fn(f)
        m_ += 1
        bad = [tstr(f.op(ex['a'][0])) for items, ex in ret_paths(f) if not (f.is_self(base_off(f.op(ex['a'][0]))[0] or I(0)) and base_off(f.op(ex['a'][0]))[1] == boff)]
        eff = [e for items, ex in ret_paths(f) for e in walk_events(items) if e.kind in ('store', 'call', 'copy')]
        ctx.ob('gives-own-buffer', c.name + '::get_buffer', not bad and not eff, 'returns %s' % (bad or 'its own buffer'), f.where(None))
    ctx.need('buffer accessors', m_, 40)
    f = prog.one('^wit_set_buffer$')
    for items, ex in ret_paths(f):
        th = ('arg', 0)
        g = f
        g_is = f.is_self
        f.is_self = lambda t: t == th
        ok, det = adopted(f, items, 0, boff, bsize, ('arg', 1))
        f.is_self = g_is
        if not ok:
            ok, det = either((ok, det), lambda: given(prog, next(c for c in classes(prog) if c.name == 'SineOscillator'), f, slots))
        ctx.ob('set-buffer', 'BaseModule::set_buffer', ok, det or 'samples, channels and sample rate adopted', f.where(None))
    # controls: the rule must reject a handoff that forgets the channel count
    ctl = prog.one('^wit_ctl_partial_handoff$')
    f = ctl
    f.is_self = lambda t: t == ('arg', 0)
    ctx.control('partial handoff', not adopted(f, ret_paths(f)[0][0], 0, boff, bsize, ('arg', 1))[0])

def judge(prog, c, f, boff, bsize):
    kind = upstream_kind(c)
    cls = fn_class(f)
    if cls == 'ParallelModule':
        st = [s for items, ex in ret_paths(f) for s in steps(f, items, NAMES)]
        return not st, 'hands over queued buffers; judged by the threading properties', f.where(None)
    if cls == 'UniformBuffer':
        st = [s for items, ex in ret_paths(f) for s in steps(f, items, NAMES)]
        return [(s.name, s.tgt) for s in st] == [('process', 'self')], 'repacking stage: processes once; pulling is judged by C11', f.where(None)
    for items, ex in ret_paths(f):
        if kind == 'mixdown':
            st = steps(f, items, NAMES)
            names = [(s.name, s.tgt) for s in st]
            if names != [('meta_process', 'inputs'), ('get_buffer', 'inputs'), ('process', 'self')]:
                bad = next((s for s in st if s.tgt == 'partial'), None)
                return False, bad.detail if bad else 'processing steps are %s' % names, f.where(None)
            ok, det = mix_list(prog, f, items)
            if not ok:
                return False, det, f.where(None)
            continue
        if kind == 'source':
            if cls == 'DurationEnvelope':
                st = [(k, e) for k, e in enumerate(items) if e.kind in ('vcall', 'call') and e.name in NAMES]
                if [e.name for k, e in st] != ['meta_process', 'get_buffer'] or st[0][1].obj != st[1][1].obj:
                    return False, 'the managed envelope is not processed once and its buffer taken once', f.where(None)
                ok, det = adopted(f, items, st[1][0], boff, bsize, f.term(st[1][1].ins['i']))
                if not ok:
                    return False, det, f.where(None)
                continue
            st = steps(f, items, NAMES)
            if [(s.name, s.tgt) for s in st] != [('process', 'self')]:
                return False, 'a source must process itself exactly once: %s' % st, f.where(None)
            continue
        if cls == 'PeriodSink' or any(it.kind == 'loop' and any(e.kind == 'vcall' and e.name in NAMES for e in walk_events([it])) for it in items):
            loops = [it for it in items if it.kind == 'loop']
            if len(loops) != 1 or any(e.kind in ('vcall', 'call') and e.name in NAMES for e in items if e.kind != 'loop'):
                return False, 'periods are not processed by one loop', f.where(None)
            l = loops[0].loop
            cnt = l.count()
            if cnt and cnt[0] == 'max0':
                cnt = cnt[1]
            per = period_off(prog)
            if cnt is None or drop_version(cnt) != ('ld', add(f.this(), I(per))) or len(l.exits) != 1:
                return False, 'the number of repetitions is %s, not the configured period count' % (tstr(cnt) if cnt else 'not bounded by the period count'), l.where()
            for body in l.bodies():
                ok, det, wh = seq_ok(prog, c, f, [x for x in body if x.kind != 'cond'], boff, bsize)
                if not ok:
                    return False, det, wh
            continue
        ok, det, wh = seq_ok(prog, c, f, [x for x in items if x.kind != 'cond'], boff, bsize)
        if not ok:
            return False, det, wh
    return True, 'pull, take, adopt, process: once each on every path', f.where(None)

def period_off(prog):
    return member_via(prog, 'wit_period')

def mix_list(prog, f, items):
    """fresh list (cleared) receives exactly one entry per input, the buffer just taken"""
    loop = next(it for it in items if it.kind == 'loop' and any(e.name == 'meta_process' for e in walk_events([it]) if e.kind == 'vcall'))
    k = items.index(loop)
    lists = set()
    for body in loop.loop.bodies():
        gets = [e for e in walk_events(body) if e.kind in ('vcall', 'call') and e.name == 'get_buffer']
        mp = [e for e in walk_events(body) if e.kind in ('vcall', 'call') and e.name == 'meta_process']
        if not gets:
            continue
        order = [e.name for e in walk_events(body) if e in gets or e in mp]
        if order != ['meta_process', 'get_buffer']:
            return False, 'a buffer is taken before its module was processed'
        r = f.term(gets[0].ins['i'])
        pb = [e for e in walk_events(body) if e.kind == 'call' and e.name in ('push_back', 'emplace_back')]
        if len(pb) != 1 or drop_version(pb[0].args[1]) != r:
            return False, 'the buffer of an input is not kept exactly once'
        lists.add(drop_version(pb[0].args[0]))
    if len(lists) != 1:
        return False, 'inputs are kept in several lists'
    lst = lists.pop()
    b, o = base_off(lst)
    cleared = any(e.kind == 'call' and e.name == 'clear' and drop_version(e.args[0]) == lst for e in items[:k])
    if not cleared:
        return False, 'buffers of an earlier cycle stay in the list'
    if b is None or not (f.is_self(b)):
        return False, 'inputs are kept in a temporary list'
    return True, ''
