"""D04 convolution: every routine gives the full convolution sum."""
from shape import *
LEVEL = 'other'
EXPLANATION = ('Abstract interpretation of the convolution routines in the domain of polynomials over the samples of the signal and the kernel: for each pair of lengths up to a bound every output cell is one polynomial, valid for all sample values, that must equal '
               'the convolution sum; every memory access is checked against the bounds of its buffer, and the inputs must be left alone.')
ASSUMPTIONS = ['floating-point rounding is ignored', 'std::vector and std::complex behave as the standard says']

def want(x, h):
    n, m = len(x), len(h)
    return [sum((x[i] * h[k - i] for i in range(n) if 0 <= k - i < m), num_of(0)) for k in range(n + m - 1)]

def attempt(ctx, rule, site, go, f):
    try:
        bad, good = go()
    except (Top, Unknown, AnalysisError) as u:
        bad, good = '%s' % u, None
    except (KeyError, TypeError, AttributeError, IndexError, StopIteration, ValueError) as u:
        bad, good = 'cannot be followed (%s %s)' % (type(u).__name__, u), None
    ctx.ob(rule, site, bad is None, bad or good, f.where(None))

def buffer(s, W, name, cells, channels=1):
    """a Buffer built by its own constructor, holding the cells"""
    b = s.obj(name, None)
    s.run(W('B_ctor'), [b, len(cells) // channels, channels])
    bcells(s, W, b, cells)
    return b
def bcells(s, W, b, put=None):
    n = s.run(W('B_size'), [b])
    if not n:
        return []
    p = s.run(W('B_data'), [b])
    if put is not None:
        for k, c in enumerate(put):
            s.put(('p', p[1], p[2] + 8 * k), c)
    return s.cells(p, n)

def run(ctx):
    prog = ctx.program(['^wit_(conv|length|B_)', '^(.* )?dsp::conv::', '^(.* )?dsp::ft::', '^(.* )?dsp::util::'], wits=('dsp.cpp',), transparent=['dsp::conv::', 'dsp::ft::', 'dsp::util::', 'std::complex', 'std::polar', 'std::conj', 'std::operator'])
    W = lambda n: prog.one('^wit_%s$' % n)
    for f in prog.fns.values():
        ctx.fn(f)
    deep = ctx.tier == 'thorough'
    top = 8 if deep else 5
    large = [(60, 1), (1, 60), (33, 7), (9, 40)] + ([(130, 52), (64, 64), (5, 300)] if deep else [(70, 52)])
    shapes = [(n, m) for n in range(1, top + 1) for m in range(1, top + 1)]

    def length():
        for n in range(0, 40):
            for m in range(1, 40):
                for w in ('i', 'u'):
                    r = Shape(prog).run(W('length_' + w), [n, m])
                    if r != n + m - 1:
                        return 'the length of a convolution of %d and %d samples is %s' % (n, m, r), None
        return None, 'every pair of lengths'
    attempt(ctx, 'length', 'length_conv', length, W('length_i'))

    def conv(w, kind):
        def go():
            todo = shapes + ([(9, 9), (17, 2)] if w == 'conv_fft' else large)
            for n, m in todo:
                s = Shape(prog, 4000000)
                x, h = [atom('x', k) for k in range(n)], [atom('h', k) for k in range(m)]
                ref = want(x, h)
                if kind == 'pointers' or kind == 'buffers':
                    X, H = buffer(s, W, 'X', x), buffer(s, W, 'H', h)
                    if kind == 'pointers':
                        # owned: the routine frees its inputs
                        O = s.run(W(w), [X, H])
                    else:
                        O = buffer(s, W, 'O', [num_of(0)] * (n + m - 1))
                        s.run(W(w), [X, H, O])
                    got = bcells(s, W, O)
                    if kind == 'buffers' and (bcells(s, W, X) != x or bcells(s, W, H) != h):
                        return 'changes its inputs (%d by %d samples)' % (n, m), None
                else:
                    X, H, O = s.array('X', x), s.array('H', h), s.array('O', [num_of(0)] * (n + m - 1))
                    s.run(W(w), [X, n, H, m, O] if kind == 'sizes' else [X, ('p', 'X', 8 * n), H, ('p', 'H', 8 * m), O])
                    got = s.cells(O, n + m - 1)
                    if s.cells(X, n) != x or s.cells(H, m) != h:
                        return 'changes its inputs (%d by %d samples)' % (n, m), None
                if len(got) != len(ref):
                    return 'gives %d samples for %d by %d' % (len(got), n, m), None
                for k in range(len(ref)):
                    if not isinstance(got[k], (Poly, int)) or Poly.of(got[k]) != ref[k]:
                        return 'sample %d of the convolution of %d and %d samples is %r, not %r' % (k, n, m, got[k], ref[k]), None
            return None, 'equal to the convolution sum for %d pairs of lengths' % len(todo)
        return go
    for w, kind, site in (('conv_in', 'sizes', 'input_conv'), ('conv_inv', 'sizes', 'input_conv over vectors'), ('conv_in2', 'ends', 'input_conv between iterators'), ('conv_inb', 'buffers', 'input_conv over buffers'),
                          ('conv_inp', 'pointers', 'input_conv of buffers'), ('conv_out', 'sizes', 'output_conv'), ('conv_outv', 'sizes', 'output_conv over vectors'), ('conv_out2', 'ends', 'output_conv between iterators'),
                          ('conv_outb', 'buffers', 'output_conv over buffers'), ('conv_outp', 'pointers', 'output_conv of buffers'), ('conv_fft', 'sizes', 'conv_fft')):
        attempt(ctx, 'convolution-sum', site, conv(w, kind), W(w))
