"""E03 oscillators: every sample is the waveform at the current phase, and the phase advances by one step per sample."""
from genlib import *
LEVEL = 'other'
EXPLANATION = ('Each oscillator\'s filling loop is summarised as one symbolic iteration: the new phase as a function of the old one (memory or register held, loads resolved by their position relative to the phase update) and the written sample as a function of the old phase. '
               'The new phase must be the old one plus one (plain) or plus the frequency sample at the same position divided by the sample rate (modulated), in exact arithmetic. The sample, rewritten as a piecewise affine function of the fractional part of its cycle position, must equal the specified waveform '
               'on every piece and at every breakpoint; sine waves must be the sine of 2*pi times the cycle position. The cycle position is frequency * phase / buffer sample rate (plain) or the phase (modulated).')
ASSUMPTIONS = ['floating-point rounding is ignored', 'phase and frequency are non-negative', 'sin, modf, fmod, floor behave as in the C library']
HALF = Fraction(1, 2)
U = ('u',)

def f_(x):
    return ('f', str(x))

def want_wave(kind):
    """expected waveform as a term over u in [0,1)"""
    lt = lambda c: ('fcmp', 'olt', U, f_(c))
    lin = lambda a, b: ('fadd', ('fmul', f_(a), U), f_(b))
    if kind == 'Square':
        return ('ite', lt(0.5), f_(1), f_(-1))
    if kind == 'Sawtooth':
        return ('ite', lt(0.5), lin(2, 0), lin(2, -2))
    if kind == 'Triangle':
        return ('ite', lt(0.25), lin(4, 0), ('ite', ('fcmp', 'ole', U, f_(0.75)), lin(-4, 2), lin(4, -4)))

def run(ctx):
    prog = ctx.program([r'Oscillator::process\(', '^wit_'])
    B = buf(prog)
    ph, fr = member_via(prog, 'wit_osc_phase'), member_via(prog, 'wit_osc_freq')
    mph, mfr = member_via(prog, 'wit_mosc_phase'), member_via(prog, 'wit_mosc_freq')
    for kind in ('Sine', 'Square', 'Sawtooth', 'Triangle'):
        for mod in (False, True):
            n = ('Mod' if mod else '') + kind + 'Oscillator'
            f = prog.one(r'^%s::process\(' % n)
            ctx.fn(f)
            lay = prog.layout(n)
            for r, ok, det, wh in judge(prog, f, B, kind, mod, mph if mod else ph, mfr if mod else fr):
                ctx.ob(r, n + '::process', ok, det, wh)
    A = [('arg', 0), ('arg', 1)]
    for w, o, want in (('osc_set_phase', ph, A[1]), ('osc_set_freq', fr, A[1]), ('osc_inc_phase', ph, None), ('mosc_set_phase', mph, A[1]), ('mosc_inc_phase', mph, None)):
        f = prog.one('^wit_%s$' % w)
        for items, ex in ret_paths(f):
            fi = finals(f, items, A[0])
            t = R(drop_version(fi.get(o, ('none',))))
            ok = set(fi) == {o} and t == (R(want) if want else radd(ratom(('ld', add(A[0], I(o)))), ratom(A[1])))
            ctx.ob('accessor', w, ok, 'stores %s' % {k: tstr(v) for k, v in fi.items()}, f.where(None))
    ctx.need('oscillator rules', len(ctx.obs), 20)

def judge(prog, f, B, kind, mod, ph, fr):
    th = f.this()
    cell = add(th, I(ph))
    for items, ex in ret_paths(f):
        effs = effects(f, items)
        wr = samples_written(f, B, effs)
        lps = {e.loops[-1].header: e.loops[-1] for e, o in wr if e.loops}
        if len(lps) != 1 or any(len(e.loops) != 1 for e, o in wr):
            yield 'wave', False, 'samples are written in %d loops' % len(lps), f.where(None)
            return
        L = list(lps.values())[0]
        k = [i for i, y in enumerate(items) if y.kind == 'loop' and y.loop is L][0]
        if any(e.kind == 'store' and drop_version(e.addr) == cell and drop_version(e.val) != ('ld', cell) for x in items[:k] for e in walk_events([x])):
            yield 'phase', False, 'the phase is changed before the first sample', f.where(None)
            return
        rate = ratom(('ld', add(th, I(B['rate']))))
        def norm_rate(t):                                # the buffer carries the configured rate
            return subst(drop_version(t), lambda x: ('ld', add(th, I(B['rate']))) if x[0] == 'ld' and selfoff(f, x[1]) == B['cfg']['sample_rate'] else None)
        src = None
        if mod:
            src, why = freq_buffer(f, items, L, add(th, I(fr)))
            if src is None:
                yield 'frequency', False, why, f.where(None)
                return
        sig = ratom(('sigma',))
        if mod:
            x = sig
        else:
            x = rmul(rmul(ratom(('ld', add(th, I(fr)))), sig), {((('ld', add(th, I(B['rate']))), -1),): Fraction(1)})
        paths, steps_ok, why = [], True, ''
        for b in L.bodies():
            res, fin, reg = iteration(f, L, b, cell)
            w = [e for e in b if e.kind == 'store' and any(e is q.ev for q, o in wr)]
            if len(w) != 1:
                yield 'wave', False, 'an iteration writes %d samples' % len(w), L.where()
                return
            inc = radd(R(norm_rate(fin)), sig, -1)
            if mod:
                want = [rmul(ratom(('ld', a)), {((('ld', add(th, I(B['rate']))), -1),): Fraction(1)}) for a in (add(('ld', src), mul(I(8), ('iter', L.header))),)]
            else:
                want = [rconst(1)]
            if not any(close(inc, q) for q in want):
                steps_ok, why = False, 'the phase advances by %s per sample' % rstr(inc)
            if reg and not any(e.kind == 'store' and drop_version(e.addr) == cell for e in walk_events(items)):
                steps_ok, why = False, 'the advanced phase is not kept'
            cs = [(drop_version(res(c.t)), c.v) for c in b if c.kind == 'cond' and not is_control(c, L)]
            for c2, v2 in ites(cs, drop_version(res(w[0].val))):
                paths.append((c2, norm_rate(v2), w[0]))
        yield 'phase', steps_ok, why or 'advances by %s per sample' % ('frequency/rate' if mod else 'one'), L.where()
        ok, det = wave(kind, paths, x)
        yield 'wave', ok, det, paths[0][2].where()

def freq_buffer(f, items, L, par):
    """the vector holding this cycle's frequency samples"""
    k = [i for i, y in enumerate(items) if y.kind == 'loop' and y.loop is L][0]
    runs = [e for e in walk_events(items) if e.kind in ('vcall', 'call') and e.name in ('meta_process', 'get') and drop_version(e.obj if e.kind == 'vcall' else e.args[0]) == par]
    gets = [e for e in walk_events(items) if e.kind in ('vcall', 'call') and e.name in ('get_buffer', 'get') and drop_version(e.obj if e.kind == 'vcall' else e.args[0]) == par]
    if len(runs) != 1 or len(gets) != 1 or runs[0] not in items[:k] or gets[0] not in items[:k]:
        return None, 'the frequency parameter is read %d times per cycle' % len(runs)
    if items.index(runs[0]) > items.index(gets[0]):
        return None, 'the frequency samples are taken before the parameter is processed'
    src = f.term(gets[0].ins['i'])
    for e in items[:k]:
        if e.kind == 'call' and e.name in ('vector', 'operator=') and len(e.args) == 2 and drop_version(e.args[1]) == src:
            return drop_version(e.args[0]), None
    return src, None

def wave(kind, paths, x):
    if kind == 'Sine':
        want = rmul(x, rconst(flt('6.2831853071795862')))
        for cs, v, e in paths:
            if v[0] != 'sin' or not close(R(v[1]), want):
                return False, 'the sample is %s, not the sine of 2*pi*%s' % (tstr(v), rstr(x))
        return True, 'sine of 2*pi*(%s)' % rstr(x)
    pp = []
    for cs, v, e in paths:
        v2, u, bad = fracs(v, x)
        cs2 = []
        for c, b in cs:
            c2, u, bad2 = fracs(c, x)
            bad = bad + bad2
            cs2.append((c2, b))
        if bad:
            return False, 'the cycle position is %s, expected %s' % (rstr(R(bad[0])), rstr(x))
        pp += [(c, w) for c, w in ites(cs2, v2)]
    want = [(c, w) for c, w in ites([], want_wave(kind))]
    a, b = pieces(pp, U, 0, 1), pieces(want, U, 0, 1)
    show = lambda ps: '; '.join('%s..%s: %s' % (float(q[0]), float(q[1]), rstr(q[2])) for q in ps) if ps else 'not a piecewise affine function of the cycle position'
    if a is None or [(q[0], q[1]) for q in a] != [(q[0], q[1]) for q in b] or not all(close(p[2], q[2]) for p, q in zip(a, b)):
        return False, 'the waveform is %s' % show(a)
    for p in sorted({q[0] for q in b}):
        va, vb = at(pp, p), at(want, p)
        if va is None or abs(va - vb) > Fraction(1, 10 ** 11):
            return False, 'at cycle position %s the waveform is %s, not %s' % (float(p), va if va is None else float(va), float(vb))
    return True, show(a)

def at(paths, p):
    vs = []
    for cs, v in paths:
        tv = [(cond_at(c, U, p), w) for c, w in cs]
        if any(t is None for t, w in tv):
            return None
        if all(t == w for t, w in tv):
            r = rsub_atom(R(resolve(v, U, p)), U, p)
            vs.append(r.get((), Fraction(0)) if set(r) <= {()} else None)
    return vs[0] if vs and all(z == vs[0] for z in vs) else None
