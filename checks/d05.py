"""D05 windows, sinc kernels and kernel transformations follow their formulas."""
from shape import *
from d04 import attempt, buffer, bcells
LEVEL = 'other'
EXPLANATION = ('Abstract interpretation of the window and kernel functions: positions and sizes are enumerated, the coefficients of the windows, the cutoff, the window given to the kernel and the samples of a kernel are symbols, and every result is one '
               'expression in those symbols that must equal the formula, whatever their values.')
ASSUMPTIONS = ['floating-point rounding is ignored', 'a window given to a kernel is symmetric and one in the middle']

class Model(Shape):
    """a window is a symbol per pair of mirrored positions"""
    def __init__(self, prog):
        super().__init__(prog, 4000000)
        self.decide = self.generic
    def generic(self, c):
        f, p, x, y = c
        v = (x - y)
        t = 0.0
        for m, k in v.d.items():
            q = float(k)
            for a in m:
                if a not in ('x', 'f'):
                    return None
                q *= 0.6180339887
            t += q
        return bool(CMP[p](t, 0))
    def vcall(self, f, i, args):
        if len(args) == 2 and all(isinstance(a, int) for a in args):
            k, n = args
            if not 0 <= k < n:
                raise Top('asks for position %d of a window of %d' % (k, n))
            return num_of(1) if 2 * k == n - 1 else atom('w', min(k, n - 1 - k), n)
        raise Top('a call through a pointer')

def sinc_of(x):
    return function('sin', x) * inverse(x)

def run(ctx):
    prog = ctx.program(['^wit_(w_|sinc|inversion|reversal|B_)', '^(.* )?dsp::(win|kern|util)::'], wits=('dsp.cpp',), transparent=['dsp::kern::'], opaque=[])
    W = lambda n: prog.one('^wit_%s$' % n)
    for f in prog.fns.values():
        ctx.fn(f)
    deep = ctx.tier == 'thorough'
    sizes = list(range(2, 14)) + [17, 51, 64] + (list(range(14, 130)) if deep else [])
    cos = lambda k, i, n: num_of(math.cos(2 * k * math.pi * i / (n - 1)))
    A = atom('a')
    hann = lambda a: lambda i, n: a - (1 - a) * cos(1, i, n)
    black = lambda a: lambda i, n: (1 - a) * num_of(Fraction(1, 2)) - num_of(Fraction(1, 2)) * cos(1, i, n) + a * num_of(Fraction(1, 2)) * cos(2, i, n)
    half, ham, bl = num_of(Fraction(1, 2)), num_of(0.54), num_of(0.16)
    for w, args, ref, site in (('w_rect', [], lambda i, n: num_of(1), 'window_rectangle'), ('w_hann', [], hann(half), 'window_hann'), ('w_hanna', [A], hann(A), 'window_hann with a0'), ('w_hamming', [], hann(ham), 'window_hamming'),
                               ('w_hamminga', [A], hann(A), 'window_hamming with a0'), ('w_blackmanc', [], black(bl), 'window_blackmanc'), ('w_blackmanca', [A], black(A), 'window_blackmanc with alpha'), ('w_blackman', [], black(bl), 'window_blackman')):
        def go():
            for n in sizes:
                for i in range(n):
                    r = Model(prog).run(W(w), [i, n] + args)
                    if r != ref(i, n):
                        return 'position %d of a window of %d is %r, not %r' % (i, n, r, ref(i, n)), None
            return None, 'every position of windows of %d sizes' % len(sizes)
        attempt(ctx, 'window-formula', site, go, W(w))

    def sinc():
        r = Model(prog).run(W('sinc'), [atom('x')])
        for x in (0, 1, -1, Fraction(1, 8), Fraction(-7, 2), Fraction(1, 10 ** 6), 40):
            v = Model(prog).run(W('sinc'), [num_of(x)]).const()
            if v is None or abs(float(v) - (math.sin(x) / float(x) if x else 1.0)) > 1e-9:
                return 'sinc(%s) is %s' % (x, v), None
        x = atom('x')
        if r != sinc_of(x):
            return 'sinc(x) is %r' % r, None
        return None, 'sin(x)/x, and 1 at zero'
    attempt(ctx, 'sinc-formula', 'sinc', sinc, W('sinc'))

    odd = [n for n in range(1, 20, 2)] + [51] + ([101, 151] if deep else [])
    def invert():
        for n in odd:
            s, k = Shape(prog), [atom('k', i) for i in range(n)]
            K = s.array('K', k)
            s.run(W('inversion'), [K, n])
            for i, c in enumerate(s.cells(K, n)):
                if c != (1 - k[i] if i == n // 2 else -k[i]):
                    return 'tap %d of %d becomes %r' % (i, n, c), None
        return None, 'kernels of %d odd sizes' % len(odd)
    attempt(ctx, 'spectral-inversion', 'spectral_inversion', invert, W('inversion'))
    def reverse():
        for n in sorted(odd + [k + 1 for k in odd]):
            s, k = Shape(prog), [atom('k', i) for i in range(n)]
            K = s.array('K', k)
            s.run(W('reversal'), [K, n])
            for i, c in enumerate(s.cells(K, n)):
                if c != (k[i] if i % 2 else -k[i]):
                    return 'tap %d of %d becomes %r' % (i, n, c), None
        return None, 'kernels of %d sizes' % (2 * len(odd))
    attempt(ctx, 'spectral-reversal', 'spectral_reversal', reverse, W('reversal'))

    def taps(n, win):
        mid = (n - 1) // 2
        raw = [(sinc_of(atom('f') * num_of(2 * math.pi * abs(i - mid))) if i != mid else num_of(1)) * win(i, n) for i in range(n)]
        if win(mid, n).const() is None:
            raw[mid] = win(mid, n)
        tot = num_of(1) + sum((raw[i] for i in range(n) if i != mid), num_of(0))
        return [r * inverse(tot) if tot.const() is None else r * num_of(1 / tot.const()) for r in raw]
    blackman = lambda i, n: num_of(1) if 2 * i == n - 1 else black(bl)(i, n)
    given = lambda i, n: num_of(1) if 2 * i == n - 1 else atom('w', min(i, n - 1 - i), n)
    def kernel(w, win):
        def go():
            for n in odd if w != 'sinc_kernelb' else odd[:6]:
                if n == 1 and w != 'sinc_kernelw':
                    continue                # the position of a formula window is undefined in a window of one
                s = Model(prog)
                if w == 'sinc_kernelb':
                    b = buffer(s, W, 'B', [num_of(7)] * n)
                    s.run(W(w), [atom('f'), b])
                    got = bcells(s, W, b)
                else:
                    O = s.array('K', [num_of(7)] * n)
                    s.run(W(w), [atom('f'), n, O] + ([('p', ('fnp',), 0)] if w == 'sinc_kernelw' else []))
                    got = s.cells(O, n)
                for i, (g, r) in enumerate(zip(got, taps(n, win))):
                    if g != r:
                        return 'tap %d of %d is %r, not %r' % (i, n, g, r), None
            return None, 'kernels of %d odd sizes, for every cutoff' % len(odd)
        return go
    for w, win, site in (('sinc_kernel', blackman, 'sinc_kernel'), ('sinc_kernelw', given, 'sinc_kernel with a window'), ('sinc_kernelb', blackman, 'sinc_kernel into a buffer')):
        attempt(ctx, 'sinc-kernel', site, kernel(w, win), W(w))
