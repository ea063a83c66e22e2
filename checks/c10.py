"""C10 generating sources size their buffer from the configuration and set every sample exactly once."""
from genlib import *
LEVEL = 'other'
EXPLANATION = ('For every generating source the processing body is judged on every path: the own buffer is sized configured buffer size times channels and given the configured channel count and sample rate before any sample is written; '
               'then exactly one counted loop (or frame/channel nest) writes through it, once per iteration on every iteration path, whose addresses (scalar evolution) enumerate every sample position exactly once. The constant source writes its value, the buffer source copies the whole repeated buffer and leaves it untouched.')
ASSUMPTIONS = ['sizes are non-negative', 'the configured channel count is at least one']

GEN = ['ConstModule', 'SineOscillator', 'SquareOscillator', 'SawtoothOscillator', 'TriangleOscillator', 'ModSineOscillator', 'ModSquareOscillator', 'ModSawtoothOscillator', 'ModTriangleOscillator']

def run(ctx):
    prog = ctx.program([r'(Oscillator|ConstModule|BufferModule)::process\(', '^wit_'])
    B = buf(prog)
    for c in GEN:
        f = prog.one(r'^%s::process\(' % c)
        ctx.fn(f)
        for items, ex in ret_paths(f):
            ok, det, wh = judge(prog, f, B, items, c)
            ctx.ob('fills', c + '::process', ok, det, wh)
    f = prog.one(r'^BufferModule::process\(')
    ctx.fn(f)
    g = prog.layout('BufferModule')
    src = [o for k, (o, s, ty) in g.items() if ty.startswith('dsp::buff::Buffer') and ty.endswith('*')]
    if len(src) != 1:
        raise AnalysisError('the repeated buffer was not found')
    for items, ex in ret_paths(f):
        ok, det, wh = repeat(f, B, items, src[0])
        ctx.ob('repeats', 'BufferModule::process', ok, det, wh)
    ctx.need('generating sources', len({o[1] for o in ctx.obs}), 10)

def judge(prog, f, B, items, c):
    k, why = alloc(f, B, items)
    if k is None:
        return False, why, f.where(None)
    effs = effects(f, items)
    wr = samples_written(f, B, effs)
    if not wr:
        return False, 'no sample is written', f.where(None)
    pre = [e for e, o in samples_written(f, B, effects(f, items[:k]))]
    if pre:
        return False, 'samples are written before the buffer is sized', pre[0].ev.where()
    nests = {tuple(l.header for l in e.loops) for e, o in wr}
    if len(nests) != 1 or () in nests:
        return False, 'samples are written in %d places' % len(nests), wr[0][0].ev.where()
    loops = wr[0][0].loops
    for l in loops:
        if len(l.exits) != 1:
            return False, 'the filling loop can leave early', l.where()
    for e, o in wr:
        if e.ev.kind != 'store' or e.ev.size != 8:
            return False, 'a sample is written as %s' % e.ev.kind, e.ev.where()
        if covers(f, B, e.loops, o) is None:
            return False, 'position %s over %s does not visit every sample once' % (tstr(o), [tstr(l.count()) if l.count() else '?' for l in e.loops]), e.ev.where()
    inner = max(loops, key=lambda l: -len(l.blocks))
    for b in inner.bodies():
        n = sum(1 for x in b if x.kind == 'store' and any(e.ev is x for e, o in wr))
        if n != 1:
            return False, 'an iteration writes %d samples' % n, inner.where()
    if c == 'ConstModule':
        lay = prog.layout('ConstModule')
        base = prog.layout('BaseModule')
        vals = [o for kk, (o, s, ty) in lay.items() if ty == 'double' and kk not in base]
        for e, o in wr:
            v = drop_version(e.ev.val)
            if not (v[0] == 'ld' and selfoff(f, v[1]) in vals):
                return False, 'the constant source writes %s' % tstr(v), e.ev.where()
    return True, 'sized from the configuration, every sample once', f.where(None)

def repeat(f, B, items, src):
    import c05
    g = ('ld', add(f.this(), I(src)))
    for i, e in enumerate(items):
        if e.kind == 'call' and e.name == 'operator=' and selfoff(f, e.args[0]) == B['bo'] and drop_version(e.args[1]) == g:
            if 'const&' not in norm(e.full):
                return False, 'the repeated buffer is moved away', e.where()
            ok, det = c05.adopted(f, items, i, B['bo'], B['size'], g)
            return ok, det, e.where()
    return False, 'the own buffer does not become a copy of the repeated buffer', f.where(None)
