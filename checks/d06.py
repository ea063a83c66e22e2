"""D06 convolution filters: overlap-add over blocks, per channel, and the kernels of the sinc filter."""
from shape import *
from d04 import attempt, want
from d05 import sinc_of
LEVEL = 'other'
EXPLANATION = ('Abstract interpretation of the filter modules in the domain of polynomials over the samples and the taps: streams are fed in blocks of enumerated sizes, numbers of channels and kernel lengths, and each output sample is one polynomial that must equal '
               'the convolution of the whole stream of its channel since the start. Kernels of the sinc filter are expressions in the frequencies and the sample rate, compared with the kernels of the filter type.')
ASSUMPTIONS = ['floating-point rounding is ignored', 'std::vector behaves as the standard says']

class Model(Shape):
    def __init__(self, prog):
        super().__init__(prog, 6000000)
        self.decide = self.generic
    def generic(self, c):
        f, p, x, y = c
        t = 0.0
        for m, k in (x - y).d.items():
            q = float(k)
            for a in m:
                if a not in ('f0', 'f1'):
                    return None
                q *= 0.6180339887
            t += q
        return bool(CMP[p](t, 0))

def run(ctx):
    prog = ctx.program(['^wit_', '^BaseModule::[gs]et_buffer', '::generate_kernel', 'ConvFilter<.*>::(process|start)', 'SincFilter<.*>::(process|start)', '^Plain::', '^(.* )?dsp::(conv|kern|util|win)::'], wits=('filt.cpp',),
                       transparent=['dsp::conv::', 'dsp::kern::', 'ConvFilter', 'SincFilter', 'Plain', 'dsp::buff::'], keep=['::generate_kernel'])
    W = lambda n: prog.one('^wit_%s$' % n)
    for f in prog.fns.values():
        ctx.fn(f)
    deep = ctx.tier == 'thorough'

    def buffer(s, frames, ch, cells, rate=None):
        b = s.heap(None)
        s.run(W('B_ctor'), [b, frames, ch]) if rate is None else s.run(W('B_ctorr'), [b, frames, ch, rate])
        if cells:
            p = s.run(W('B_data'), [b])
            for k, c in enumerate(cells):
                s.put(('p', p[1], p[2] + 8 * k), c)
        return b
    def cells(s, b):
        n = s.run(W('B_size'), [b])
        if not n:
            return []
        p = s.run(W('B_data'), [b])
        return s.cells(p, n)
    def make(s, w):
        F = s.heap(None)
        s.run(W(w + '_ctor'), [F])
        return F

    def session(s, F, taps, ch, blocks, n0=0):
        """feeds the blocks through a started filter; the filter is silent before the first"""
        base = s.run(W('cf_base'), [F])
        xs = [[] for _ in range(ch)]
        out = [[] for _ in range(ch)]
        for N in blocks:
            t = n0 + len(xs[0])
            x = [[atom('x', c, t + k) for k in range(N)] for c in range(ch)]
            b = buffer(s, N, ch, [x[c][k] for k in range(N) for c in range(ch)], num_of(8000))
            s.run(W('cf_in'), [base, b])
            s.run(W('cf_process'), [F])
            o = s.run(W('cf_out'), [base])
            y = cells(s, o)
            if len(y) != N * ch:
                return 'turns a block of %d samples in %d channels into %d' % (N, ch, len(y))
            if s.run(W('B_channels'), [o]) != ch or s.run(W('B_rate'), [o]) != num_of(8000):
                return 'loses the channels or the sample rate of a block of %d channels' % ch
            for c in range(ch):
                xs[c] += x[c]
                out[c] += [y[k * ch + c] for k in range(N)]
        for c in range(ch):
            ref = want(xs[c], taps)
            for k, v in enumerate(out[c]):
                if not isinstance(v, (Poly, int)) or Poly.of(v) != ref[k]:
                    return 'sample %d of channel %d of a stream in blocks of %s is %r, not %r (%d taps)' % (k, c, blocks, v, ref[k], len(taps))
    seqs = [[4, 4, 4], [2, 3, 1, 5], [1, 1, 1, 1, 1, 1], [7, 2, 2, 2]] + ([[3] * 6, [1, 6, 2, 6, 1], [10, 1, 10], [2] * 9] if deep else [])
    kernels = [1, 2, 3, 5] + ([4, 7, 9] if deep else [])
    def overlap():
        t = 0
        for ch in (1, 2, 3):
            for M in kernels:
                for q in seqs if ch < 3 else seqs[:2]:
                    s = Model(prog)
                    F = make(s, 'cf')
                    taps = [atom('h', k) for k in range(M)]
                    s.run(W('cf_kernel'), [F, buffer(s, M, 1, taps)])
                    s.run(W('cf_start'), [F])
                    b = session(s, F, taps, ch, q)
                    if b:
                        return b, None
                    t += 1
                    s.run(W('cf_start'), [F])      # a new session starts from silence
                    b = session(s, F, taps, ch, q[::-1], 1000)
                    if b:
                        return 'after a restart, ' + b, None
        return None, '%d streams: every sample is the convolution of its channel since the start' % t
    attempt(ctx, 'overlap-add', 'BaseConvFilter::process', overlap, W('cf_process'))

    def channels():
        for a, b in ((1, 2), (2, 1), (3, 2), (2, 3)):
            s = Model(prog)
            F = make(s, 'cf')
            taps = [atom('h', k) for k in range(3)]
            s.run(W('cf_kernel'), [F, buffer(s, 3, 1, taps)])
            for ch in (a, b):
                s.run(W('cf_start'), [F])
                r = session(s, F, taps, ch, [3, 2])
                if r:
                    return 'with %d channels after %d: %s' % (b, a, r), None
        return None, 'sessions with other numbers of channels'
    attempt(ctx, 'overlap-add', 'BaseConvFilter::start', channels, W('cf_start'))

    def shrink():
        for M1, M2, N in ((6, 2, 1), (5, 1, 2), (2, 6, 1), (9, 3, 2)):
            s = Model(prog)
            F = make(s, 'cf')
            base = s.run(W('cf_base'), [F])
            h, g = [atom('h', k) for k in range(M1)], [atom('g', k) for k in range(M2)]
            s.run(W('cf_kernel'), [F, buffer(s, M1, 1, h)])
            s.run(W('cf_start'), [F])
            out, x1, x2 = [], [], []
            for step in range(6):
                if step == 2:
                    s.run(W('cf_kernel'), [F, buffer(s, M2, 1, g)])
                x = [atom('x', step * N + k) for k in range(N)]
                z = [num_of(0)] * N
                x1, x2 = x1 + (x if step < 2 else z), x2 + (x if step >= 2 else z)
                s.run(W('cf_in'), [base, buffer(s, N, 1, x)])
                s.run(W('cf_process'), [F])
                out += cells(s, s.run(W('cf_out'), [base]))
            a, b = want(x1, h), want(x2, g)
            for k, v in enumerate(out):
                if Poly.of(v) != a[k] + b[k]:
                    return 'sample %d of a stream whose kernel went from %d to %d taps is %r, not %r' % (k, M1, M2, v, a[k] + b[k]), None
        return None, 'the ringing of a longer kernel is heard out'
    attempt(ctx, 'kernel-change', 'BaseConvFilter::set_kernel', shrink, W('cf_process'))

    # --- sinc filter
    types = {n: Shape(prog).run(W(n), []) for n in ('lowpass', 'highpass', 'bandpass', 'bandreject')}
    RATE = 8000
    def low(fr, n):
        mid = (n - 1) // 2
        bl = lambda i: num_of(0.42 - 0.5 * math.cos(2 * math.pi * i / (n - 1)) + 0.08 * math.cos(4 * math.pi * i / (n - 1))) if i != mid else num_of(1)
        raw = [(sinc_of(fr * num_of(2 * math.pi * abs(i - mid))) if i != mid else num_of(1)) * bl(i) for i in range(n)]
        tot = sum(raw, num_of(0))
        return [r * inverse(tot) for r in raw] if tot.const() is None else [r * num_of(1 / tot.const()) for r in raw]
    def inv(k):
        return [(num_of(1) - c) if i == len(k) // 2 else -c for i, c in enumerate(k)]
    def kernel(t, how):
        def go():
            for n in [3, 5, 7, 51] + ([9, 21, 101] if deep else []):
                s = Model(prog)
                F = make(s, 'sf')
                base = s.run(W('sf_base'), [F])
                f0, f1 = atom('f0'), atom('f1')
                for w, v in (('sf_type', types[t]), ('sf_f0', f0), ('sf_f1', f1), ('sf_size', n)):
                    s.run(W(w), [F, v])
                s.run(W('sf_rate'), [F, num_of(RATE)])
                if (s.run(W('sf_get_type'), [F]), s.run(W('sf_get_size'), [F])) != (types[t], n) or s.run(W('sf_get_f0'), [F]) != f0 or s.run(W('sf_get_f1'), [F]) != f1:
                    return 'forgets its type, size or frequencies', None
                s.run(W('sf_' + how), [F])
                k = s.run(W('sf_get'), [F])
                got = cells(s, k)
                r0, r1 = f0 * num_of(Fraction(1, RATE)), f1 * num_of(Fraction(1, RATE))
                lp = low(r0, n)
                if t == 'lowpass':
                    ref = lp
                elif t == 'highpass':
                    ref = inv(lp)
                else:
                    ref = [a + b for a, b in zip(lp, inv(low(r1, n)))]
                    if t == 'bandpass':
                        ref = inv(ref)
                if len(got) != n:
                    return 'a kernel of size %d has %d taps' % (n, len(got)), None
                for i, (g, r) in enumerate(zip(got, ref)):
                    if not isinstance(g, Poly) or g != r:
                        return 'tap %d of %d of a %s kernel is %r, not %r' % (i, n, t, g, r), None
            return None, 'kernels of the configured size, for all frequencies'
        return go
    for t in types:
        attempt(ctx, 'filter-kernel', t, kernel(t, 'generate'), W('sf_generate'))
    attempt(ctx, 'filter-kernel', 'made at start', kernel('bandpass', 'start'), W('sf_start'))

    def defaults():
        s = Model(prog)
        F = make(s, 'sf')
        if s.run(W('sf_get_type'), [F]) != types['lowpass'] or s.run(W('sf_get_f0'), [F]) != num_of(0) or s.run(W('sf_get_f1'), [F]) != num_of(0):
            return 'a new filter is no low pass at 0 Hz', None
        return None, 'a low pass at 0 Hz'
    attempt(ctx, 'filter-defaults', 'BaseFilter', defaults, W('sf_ctor'))
