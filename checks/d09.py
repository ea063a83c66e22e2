"""D09 amplitude modules transform every sample of the buffer exactly once, in place."""
from evalt import *
LEVEL = 'other'
EXPLANATION = ('For every amplitude module (every instantiation) each path of the processing body must contain, besides reads, exactly one counted loop (or frame/channel nest) that writes the own buffer; its addresses must visit every sample of the taken buffer exactly once, '
               'each iteration path must write exactly one sample, and the written value, evaluated in exact arithmetic for many sample/parameter values, must be the old value of the same sample times (scale) or plus (add) the configured amount. Nothing else of the module or the buffer may change.')
ASSUMPTIONS = ['floating-point rounding is ignored', 'buffers hold whole frames']

def run(ctx):
    prog = ctx.program([r'^Amplitude(Scale|Add)<.*>::process\(', '^wit_'])
    B = buf(prog)
    vo = member_via(prog, 'wit_amp_value')
    n = 0
    for cls, op in (('AmplitudeScale', lambda x, v: x * v), ('AmplitudeAdd', lambda x, v: x + v)):
        for f in prog.find(r'^%s<.*>::process\(' % cls):
            ctx.fn(f)
            n += 1
            for items, ex in ret_paths(f):
                ok, det, wh = elementwise(f, B, items, vo, op)
                ctx.ob('every-sample-once', f.dem.split('(')[0], ok, det, wh)
    ctx.need('amplitude modules', n, 2)
    A = ('arg', 0)
    for w, k in (('amp_set', 1), ('amp_add_ctor', 1), ('amp_scale_ctor', 1)):
        f = prog.one('^wit_%s$' % w)
        for items, ex in ret_paths(f):
            fi = finals(f, items, A)
            v = fi.get(vo)
            ok = v is not None and canon(v) == ('arg', k) and (w != 'amp_set' or len(fi) == 1)
            ctx.ob('amount', w, ok, 'the amount becomes %s' % (tstr(v) if v else 'unchanged'), f.where(None))
    f = prog.one('^wit_amp_default$')
    for items, ex in ret_paths(f):
        v = finals(f, items, A).get(vo)
        ctx.ob('amount', 'default', v is not None and v[0] == 'f' and num(v) == 1, 'the amount is %s' % (tstr(v) if v else '?'), f.where(None))

def elementwise(f, B, items, vo, op):
    effs = effects(f, items)
    wr = samples_written(f, B, effs)
    stray = [e for e in effs if e.ev.kind in ('call', 'vcall', 'icall', 'atomic') or e.ev.kind in ('store', 'copy', 'fill') and not any(e is w for w, o in wr)]
    if stray:
        return False, 'the body also does %s' % stray[0].ev, stray[0].ev.where()
    if not wr:
        return False, 'no sample is written on a path', f.where(None)
    if any(not e.loops for e, o in wr) or len({tuple(l.header for l in e.loops) for e, o in wr}) != 1:
        return False, 'samples are written in several places', wr[0][0].ev.where()
    for e, o in wr:
        if e.ev.kind != 'store' or covers(f, B, e.loops, o) is None:
            return False, 'position %s over %s does not visit every sample once' % (tstr(o), [tstr(l.count()) if l.count() else '?' for l in e.loops]), e.ev.where()
    for l in wr[0][0].loops:
        if len(l.exits) != 1:
            return False, 'the loop can leave early', l.where()
    L = max(wr[0][0].loops, key=lambda l: -len(l.blocks))
    vals = [(Fraction(a), Fraction(b)) for a in (0, 1, Fraction(-3, 4), 5, Fraction(1, 1000), -1) for b in (0, 1, 2, Fraction(-1, 2), Fraction(9, 8))]
    hit = set()
    for b in L.bodies():
        w = [x for x in b if x.kind == 'store' and any(e.ev is x for e, o in wr)]
        if len(w) != 1:
            return False, 'an iteration writes %d samples' % len(w), L.where()
        cell, amt = ('ld', drop_version(w[0].addr)), ('ld', add(f.this(), I(vo)))
        cs = [(drop_version(c.t), c.v) for c in b if c.kind == 'cond' and not is_control(c, L)]
        for x, v in vals:
            at = lambda t: x if t == cell else v if t == amt else None
            try:
                if not all(bool(ev(t, at)) == q for t, q in cs):
                    continue
                hit.add((x, v))
                got = ev(drop_version(unphi(f, b, w[0].val)), at)
            except Unknown as u:
                return False, 'the written value depends on %s' % u, w[0].where()
            if not same(got, op(x, v)):
                return False, 'a sample %s becomes %s for the amount %s' % (float(x), float(got), float(v)), w[0].where()
    if len(hit) != len(vals):
        return False, 'some samples are not written', L.where()
    return True, 'every sample once', f.where(None)
