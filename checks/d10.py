"""D10 matrix products, dot products and signal helpers compute their definition."""
from shape import *
from d04 import attempt, buffer, bcells
LEVEL = 'other'
EXPLANATION = ('Abstract interpretation of the matrix and signal helpers in the domain of polynomials over the elements (integers for integer sequences): shapes are enumerated, every output is one polynomial that must equal the definition, for all element values.')
ASSUMPTIONS = ['floating-point rounding is ignored', 'std::vector and std::complex behave as the standard says']

def run(ctx):
    prog = ctx.program(['^wit_(dot|mult|real|B_)', '^(.* )?dsp::(mat|util)::'], wits=('dsp.cpp',), transparent=['dsp::mat::', 'dsp::util::', 'std::complex', 'std::operator', 'std::transform'])
    W = lambda n: prog.one('^wit_%s$' % n)
    for f in prog.fns.values():
        ctx.fn(f)
    deep = ctx.tier == 'thorough'
    top = 5 if deep else 4
    seq = lambda c, n: [atom(c, k) for k in range(n)]

    def dot():
        for n in list(range(0, 10)) + [33]:
            s = Shape(prog)
            a, b = seq('a', n), seq('b', n)
            A, B = s.array('A', a), s.array('B', b)
            r = s.run(W('dot'), [A, B, n])
            ref = sum((x * y for x, y in zip(a, b)), num_of(0))
            if not isinstance(r, (Poly, int)) or Poly.of(r) != ref or s.cells(A, n) != a or s.cells(B, n) != b:
                return 'the dot product of %d elements is %r, not %r' % (n, r, ref), None
            for w, e in (('doti', 4), ('dotl', 8)):
                x, y = [3 * k - 4 for k in range(n)], [7 - k * k for k in range(n)]
                if w == 'dotl':
                    x, y = [((1 << 54) + 1 + 2 * k) * (-1) ** k for k in range(n)], [k % 7 - 3 for k in range(n)]
                s = Shape(prog)
                r = s.run(W(w), [s.array('A', x, e), s.array('B', y, e), n])
                if r != sum(p * q for p, q in zip(x, y)):
                    return 'the dot product of %d integers is %s, not %d' % (n, r, sum(p * q for p, q in zip(x, y))), None
        return None, 'sequences of 0 to 9 and 33 elements, in the type of the elements'
    attempt(ctx, 'dot-product', 'dot_product', dot, W('dot'))

    def mult():
        t = 0
        for R in range(1, top + 1):
            for K in range(1, top + 1):
                for C in range(1, top + 1):
                    for old in (0, 2, 40):
                        s = Shape(prog)
                        el = lambda n, r, c, rows: atom(n, r, c)
                        A = buffer(s, W, 'A', [atom('a', r, k) for k in range(K) for r in range(R)], R)
                        B = buffer(s, W, 'B', [atom('b', k, c) for c in range(C) for k in range(K)], K)
                        O = buffer(s, W, 'O', [atom('o', i) for i in range(old)], 2 if old else 1)
                        s.run(W('mult'), [A, B, O])
                        t += 1
                        got, ch = bcells(s, W, O), s.run(W('B_channels'), [O])
                        ref = [sum((atom('a', r, k) * atom('b', k, c) for k in range(K)), num_of(0)) for c in range(C) for r in range(R)]
                        what = 'the product of %d by %d and %d by %d' % (R, K, K, C)
                        if ch != R or len(got) != R * C:
                            return '%s has %s rows and %d elements' % (what, ch, len(got)), None
                        for i, (g, q) in enumerate(zip(got, ref)):
                            if not isinstance(g, (Poly, int)) or Poly.of(g) != q:
                                return 'row %d, column %d of %s is %r, not %r' % (i % R, i // R, what, g, q), None
                        if bcells(s, W, A) != [atom('a', r, k) for k in range(K) for r in range(R)] or bcells(s, W, B) != [atom('b', k, c) for c in range(C) for k in range(K)]:
                            return '%s changes a factor' % what, None
        return None, '%d products' % t
    attempt(ctx, 'matrix-product', 'matrix_mult', mult, W('mult'))

    def multiply(w, per):
        def go():
            for n in list(range(0, 8)) + [20]:
                s = Shape(prog)
                x, y = seq('x', n * per), seq('y', n * per)
                X, Y, O = s.array('X', x), s.array('Y', y), s.array('O', seq('o', n * per))
                s.run(W(w), [n, X, Y, O])
                ref = [a * b for a, b in zip(x, y)] if per == 1 else [c for k in range(0, 2 * n, 2) for c in (x[k] * y[k] - x[k + 1] * y[k + 1], x[k] * y[k + 1] + x[k + 1] * y[k])]
                got = s.cells(O, n * per)
                if any(Poly.of(g) != r for g, r in zip(got, ref)) or s.cells(X, n * per) != x or s.cells(Y, n * per) != y:
                    return 'the product of signals of %d samples is %s' % (n, got), None
                s = Shape(prog)             # in place
                X, Y = s.array('X', x), s.array('Y', y)
                s.run(W(w), [n, X, Y, X])
                if any(Poly.of(g) != r for g, r in zip(s.cells(X, n * per), ref)):
                    return 'the product of signals of %d samples in place is %s' % (n, s.cells(X, n * per)), None
            return None, 'signals of 0 to 7 and 20 samples, also in place'
        return go
    attempt(ctx, 'signal-product', 'multiply_signals', multiply('multiply', 1), W('multiply'))
    attempt(ctx, 'signal-product', 'multiply_signals of complex signals', multiply('multiplyz', 2), W('multiplyz'))

    def cplx(w, eop):
        def go():
            for n in list(range(0, 9)) + [20]:
                s = Shape(prog)
                x = seq('x', n)
                m = n // 2 if eop else n
                X, O = s.array('X', x), s.array('O', seq('o', 2 * m))
                s.run(W(w), [X, n, O])
                ref = x[:2 * m] if eop else [c for v in x for c in (v, num_of(0))]
                got = s.cells(O, 2 * m)
                if any(Poly.of(g) != r for g, r in zip(got, ref)) or s.cells(X, n) != x:
                    return 'the complex form of %d samples is %s' % (n, got), None
            return None, 'signals of 0 to 8 and 20 samples'
        return go
    attempt(ctx, 'complex-form', 'real_complex_naive', cplx('real_naive', False), W('real_naive'))
    attempt(ctx, 'complex-form', 'real_eop_complex', cplx('real_eop', True), W('real_eop'))
