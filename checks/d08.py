"""D08 Fourier transforms: every routine is the discrete Fourier transform, the inverses undo it."""
from shape import *
from d04 import attempt
LEVEL = 'other'
EXPLANATION = ('Abstract interpretation of the transforms in the domain of polynomials over the samples: for each size up to a bound every output is one linear form in the samples, valid for all signals, that must equal the defining sum; the inverses, fed with the '
               'spectrum of a symbolic signal, must return that signal. All accesses are checked against the size of their buffer.')
ASSUMPTIONS = ['floating-point rounding is ignored', 'std::vector and std::complex behave as the standard says']

def tw(k, n, N, sign):
    a = 2 * math.pi * ((k * n) % N) / N
    snap = lambda v: Fraction(round(v)) if abs(v - round(v)) < 1e-15 else v
    return snap(math.cos(a)), snap(sign * math.sin(a))
def cdft(x, sign=-1, div=1):
    """x: list of (re, im)"""
    N, r = len(x), []
    for k in range(N):
        re, im = num_of(0), num_of(0)
        for n, (a, b) in enumerate(x):
            c, s = tw(k, n, N, sign)
            re, im = re + a * num_of(c) - b * num_of(s), im + a * num_of(s) + b * num_of(c)
        r.append((re * num_of(Fraction(1, div)), im * num_of(Fraction(1, div))))
    return r
def rdft(x):
    return cdft([(a, num_of(0)) for a in x])[:len(x) // 2 + 1]
flat = lambda z: [c for p in z for c in p]

def diff(got, ref, what):
    for k in range(len(ref)):
        if not isinstance(got[k], (Poly, int)) or Poly.of(got[k]) != ref[k]:
            return '%s is %r, not %r' % (what(k), got[k], ref[k])
CELL = lambda N: lambda k: '%s part of value %d of %d' % (('real', 'imaginary')[k % 2], k // 2, N)

def run(ctx):
    prog = ctx.program(['^wit_(len_|index|cos_|sin_|dft|inv_dft|fft|ifft|bit_)', '^(.* )?dsp::ft::', '^(.* )?dsp::util::'], wits=('dsp.cpp',),
                       transparent=['dsp::conv::', 'dsp::ft::', 'dsp::util::', 'std::complex', 'std::polar', 'std::conj', 'std::operator'])
    W = lambda n: prog.one('^wit_%s$' % n)
    for f in prog.fns.values():
        ctx.fn(f)
    deep = ctx.tier == 'thorough'
    pows = [1, 2, 4, 8, 16, 32] + ([64, 128, 256] if deep else [])
    zs = lambda N: [(atom('re', k), atom('im', k)) for k in range(N)]
    xs = lambda N: [atom('x', k) for k in range(N)]
    Z0 = lambda N: [num_of(0)] * (2 * N)
    S = lambda: Shape(prog, 8000000)

    def go():
        for n in range(1, 70):
            if S().run(W('len_ft'), [n]) != n // 2 + 1:
                return 'length_ft(%d) is not %d' % (n, n // 2 + 1), None
            if S().run(W('len_ift'), [n]) != (n - 1) * 2:
                return 'length_ift(%d) is not %d' % (n, (n - 1) * 2), None
            for i in range(0, n):
                r = S().run(W('index_freq'), [i, n, atom('rate')])
                if r != atom('rate') * num_of(Fraction(i, n)):
                    return 'index_freq(%d, %d, rate) is %r' % (i, n, r), None
        for t in (1, 2, 3, 8, 12, 64):
            for p in range(-1, t + 3):
                for f in [Fraction(k, 2) for k in range(0, 2 * min(t, 6) + 1)] + [Fraction(-3), Fraction(t)]:
                    a = 2 * math.pi * float(f) * p / t
                    for w, v in (('cos_basis', math.cos(a)), ('sin_basis', math.sin(a))):
                        r = S().run(W(w), [p, t, num_of(f)])
                        if r.const() is None or abs(float(r.const()) - v) > 1e-9:
                            return '%s(%d, %d, %s) is %r' % (w, p, t, f, r), None
        return None, 'lengths, bin frequencies and basis functions follow their definition'
    attempt(ctx, 'definitions', 'length_ft, length_ift, index_freq, cos_basis, sin_basis', go, W('len_ft'))

    def forward(w, sizes):
        def go():
            for N in sizes:
                s, x = S(), zs(N)
                X, O = s.array('in', flat(x)), s.array('out', Z0(N))
                s.run(W(w), [X, N, O])
                b = diff(s.cells(O, 2 * N), flat(cdft(x)), CELL(N))
                if b or s.cells(X, 2 * N) != flat(x):
                    return b or 'changes its input', None
            return None, 'the transform for sizes %s' % sizes
        return go
    def inverse(w, sizes):
        def go():
            for N in sizes:
                s, x = S(), zs(N)
                X, O = s.array('in', flat(x)), s.array('out', Z0(N))
                s.run(W(w), [X, N, O])
                b = diff(s.cells(O, 2 * N), flat(cdft(x, 1, N)), CELL(N))
                if b or s.cells(X, 2 * N) != flat(x):
                    return b or 'changes its input', None
            return None, 'the inverse transform for sizes %s' % sizes
        return go
    attempt(ctx, 'complex-transform', 'fft_c_radix2', forward('fft_c', pows), W('fft_c'))
    attempt(ctx, 'complex-transform', 'fft_c_radix2 over vectors', forward('fft_cv', pows[:4]), W('fft_cv'))
    attempt(ctx, 'complex-inverse', 'ifft_c_radix2', inverse('ifft_c', pows), W('ifft_c'))
    attempt(ctx, 'complex-inverse', 'ifft_c_radix2 over vectors', inverse('ifft_cv', pows[:4]), W('ifft_cv'))

    def strided():
        for N in pows[:4]:
            for stride in (1, 2, 3):
                for sign in (-1, 1):
                    s, x = S(), zs(N * stride)
                    X, O = s.array('in', flat(x)[:2 * (stride * (N - 1) + 1)]), s.array('out', Z0(N))
                    s.run(W('fft_cs'), [X, N, O, stride, sign])
                    b = diff(s.cells(O, 2 * N), flat(cdft(x[::stride], sign)), CELL(N))
                    if b:
                        return b + ' (stride %d, sign %d)' % (stride, sign), None
        return None, 'strides 1 to 3, both signs'
    def istrided():
        for N in pows[:4]:
            for stride in (1, 2, 3):
                s, x = S(), zs(N * stride)
                X, O = s.array('in', flat(x)[:2 * (stride * (N - 1) + 1)]), s.array('out', Z0(N))
                s.run(W('ifft_cs'), [X, N, O, stride])
                b = diff(s.cells(O, 2 * N), flat(cdft(x[::stride], 1, N)), CELL(N))
                if b:
                    return b + ' (stride %d)' % stride, None
        return None, 'strides 1 to 3'
    attempt(ctx, 'complex-inverse', 'ifft_c_radix2 with stride', istrided, W('ifft_cs'))
    attempt(ctx, 'complex-transform', 'fft_c_radix2 with stride and sign', strided, W('fft_cs'))

    def place(w, sizes, sign):
        def go():
            for N in sizes:
                s, x = S(), zs(N)
                X = s.array('in', flat(x))
                s.run(W(w), [X, N])
                s.run(W('bit_reverse'), [N, X])
                b = diff(s.cells(X, 2 * N), flat(cdft(x, sign, 1 if sign < 0 else N)), CELL(N))
                if b:
                    return b, None
            return None, 'followed by bit_reverse, the transform for sizes %s' % sizes
        return go
    attempt(ctx, 'in-place', 'fft_c_radix2 in place', place('fft_ci', pows, -1), W('fft_ci'))
    attempt(ctx, 'in-place', 'fft_c_radix2 in place over vectors', place('fft_civ', pows[:4], -1), W('fft_civ'))
    attempt(ctx, 'in-place', 'ifft_c_radix2 in place', place('ifft_ci', pows, 1), W('ifft_ci'))

    def reverse():
        for b in range(0, 9 if deep else 8):
            N = 1 << b
            s = S()
            X = s.array('in', xs(N))
            s.run(W('bit_reversed'), [N, X])
            got = s.cells(X, N)
            for k in range(N):
                j = int(format(k, '0%db' % b)[::-1], 2) if b else 0
                if got[k] != atom('x', j):
                    return 'element %d of %d is %r, not element %d' % (k, N, got[k], j), None
        return None, 'every power of two to %d' % N
    attempt(ctx, 'bit-reversal', 'bit_reverse', reverse, W('bit_reversed'))

    rs = [2, 4, 8, 16, 32] + ([64, 128, 256] if deep else [])
    ns = list(range(1, 11)) + [12, 16] + ([15, 17, 20, 31, 32, 64, 100] if deep else [])
    def real(w, sizes):
        def go():
            for N in sizes:
                s, x = S(), xs(N)
                X, O = s.array('in', x), s.array('out', Z0(N // 2 + 1))
                s.run(W(w), [X, N, O])
                b = diff(s.cells(O, 2 * (N // 2 + 1)), flat(rdft(x)), CELL(N // 2 + 1))
                if b or s.cells(X, N) != x:
                    return ((b or 'changes its input') + ' (signal of %d samples)' % N), None
            return None, 'the transform of real signals of %s samples' % sizes
        return go
    def back(w, sizes):
        def go():
            for N in sizes:
                s, x = S(), xs(N)
                X, O = s.array('in', flat(rdft(x))), s.array('out', [num_of(0)] * N)
                s.run(W(w), [X, N // 2 + 1, O])
                b = diff(s.cells(O, N), x, lambda k: 'sample %d of %d' % (k, N))
                if b:
                    return b, None
            return None, 'returns every signal of %s samples' % sizes
        return go
    attempt(ctx, 'real-transform', 'dft', real('dft', ns), W('dft'))
    attempt(ctx, 'real-transform', 'dft over vectors', real('dftv', ns[:6]), W('dftv'))
    attempt(ctx, 'real-transform', 'fft_r_radix2', real('fft_r', rs), W('fft_r'))
    attempt(ctx, 'real-transform', 'fft_r_radix2 over vectors', real('fft_rv', rs[:3]), W('fft_rv'))
    ev_ = [n for n in ns if n % 2 == 0]
    attempt(ctx, 'round-trip', 'inv_dft', back('inv_dft', ev_), W('inv_dft'))
    attempt(ctx, 'round-trip', 'inv_dft over vectors', back('inv_dftv', ev_[:3]), W('inv_dftv'))
    attempt(ctx, 'round-trip', 'ifft_r_radix2', back('ifft_r', rs), W('ifft_r'))
    attempt(ctx, 'round-trip', 'ifft_r_radix2 over vectors', back('ifft_rv', rs[:3]), W('ifft_rv'))
