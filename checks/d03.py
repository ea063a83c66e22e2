"""D03 ring buffers wrap, recursive filters compute their recurrence over the whole signal."""
from shape import *
LEVEL = 'other'
EXPLANATION = ('Abstract interpretation of the filter and the ring buffer in the domain of polynomials over samples and coefficients: for every number of coefficients up to a bound, every output is one polynomial that must equal the recurrence, over signals long enough for '
               'the control state (indices) of the filter to recur, which extends the result to signals of any length; signals are also fed in pieces and in place. Ring buffer accesses are resolved for every size and index up to a bound.')
ASSUMPTIONS = ['floating-point rounding is ignored', 'the filter starts from silence', 'std::vector and std::deque behave as the standard says']

def recurrence(x, A, B):
    y = []
    for n in range(len(x)):
        v = num_of(0)
        for i in range(A):
            if n - i >= 0:
                v = v + atom('a', i) * x[n - i]
        for i in range(B):
            if n - 1 - i >= 0:
                v = v + atom('b', i) * y[n - 1 - i]
        y.append(v)
    return y

class Model(Shape):
    """standard deques are lists of values at their address"""
    def __init__(self, prog):
        super().__init__(prog)
        self.dq = {}
    def hook(self, f, i, fn, d, nm, args):
        if 'std::deque<' in d and args and args[0] in self.dq:
            q = self.dq[args[0]]
            key = lambda k: ('dq', args[0], q[k][1])
            if nm in ('push_front', 'push_back', 'emplace_front', 'emplace_back'):
                self.n += 1
                v = self.load(args[1], 8, 'double')
                self.array(('dq', args[0], self.n), [v])
                q.insert(0 if 'front' in nm else len(q), (v, self.n))
                return None
            if nm in ('pop_front', 'pop_back'):
                if not q:
                    raise Top('takes from an empty container')
                k = q.pop(0 if 'front' in nm else -1)[1]
                self.dead.add(('dq', args[0], k))
                return None
            if nm in ('operator[]', 'at', 'front', 'back'):
                k = args[1] if nm in ('operator[]', 'at') else 0 if nm == 'front' else len(q) - 1
                if not 0 <= k < len(q):
                    raise Top('element %d of a container of %d' % (k, len(q)))
                return ('p', key(k), 0)
            if nm == 'size':
                return len(q)
        return NotImplemented
    def deque(self, name, cells):
        p = self.obj(name, 80)
        self.dq[p] = []
        for c in cells:
            self.n += 1
            self.array(('dq', p, self.n), [c])
            self.dq[p].append((c, self.n))
        return p
    def dcells(self, p):
        return [self.mem[(('dq', p, k), 0)][0] for v, k in self.dq[p]]

def control(s, F, n):
    """the integers and pointers of an object: (narrow cells, wide cells)"""
    a = {o: v for (q, o), (v, w) in s.mem.items() if q == F[1] and not isinstance(v, Poly) and w < 8}
    b = {o: (v[1:] if isinstance(v, tuple) else v) for (q, o), (v, w) in s.mem.items() if q == F[1] and not isinstance(v, Poly) and w >= 8}
    return tuple(sorted(a.items())), tuple(sorted(b.items()))

def run(ctx):
    prog = ctx.program(['^wit_iir', '^wit_sp', '^wit_R_', 'iir_recursive_single'], wits=('iir.cpp', 'buf.cpp'), transparent=['iir_recursive_single'])
    W = lambda n: prog.one('^wit_%s$' % n)
    for f in prog.fns.values():
        ctx.fn(f)
    deep = ctx.tier == 'thorough'
    top = 6 if deep else 4

    def attempt(rule, site, go, f):
        try:
            bad, good = go()
        except (Top, Unknown, AnalysisError) as u:
            bad, good = '%s' % u, None
        except (KeyError, TypeError, AttributeError, IndexError, StopIteration) as u:
            bad, good = 'cannot be followed (%s %s)' % (type(u).__name__, u), None
        ctx.ob(rule, site, bad is None, bad or good, f.where(None))

    # --- ring buffer
    def ring():
        t = 0
        for n in range(1, 8 if deep else 6):
            for i in range(-3 * n - 1, 3 * n + 2):
                for w, at in (('R_at', i), ('R_it', i), ('R_inc', i + 1), ('R_dec', i - 1), ('R_sub', i)):
                    s = Shape(prog)
                    R = s.obj('R', 24)
                    s.vector(R, [atom('r', k) for k in range(n)], name='D')
                    p = s.run(W(w), [R, i])
                    t += 1
                    if p != ('p', 'D', 8 * (at % n)) or s.written - {x for x in s.written if x[0] != 'D' and x[0] != 'R'}:
                        return '%s of index %d in a ring of %d is %s, not element %d' % (w[2:], i, n, p, at % n), None
            s = Shape(prog)
            R = s.obj('R', 24)
            s.vector(R, [atom('r', k) for k in range(n)], name='D')
            if (s.run(W('R_size'), [R]), s.run(W('R_begin'), [R]), s.run(W('R_end'), [R])) != (n, 0, n):
                return 'size, begin or end of a ring of %d is wrong' % n, None
        for n in range(1, 6):
            s = Shape(prog)
            R = s.obj('R', 24)
            s.run(W('R_ctor'), [R, n])
            if s.vcells(R) != [num_of(0)] * n:
                return 'a ring of %d is made with %d elements' % (n, len(s.vcells(R))), None
            for m in (n + 2, n, max(1, n - 1)):
                s.run(W('R_resize'), [R, m])
                if len(s.vcells(R)) != m:
                    return 'resizing a ring to %d gives %d elements' % (m, len(s.vcells(R))), None
        return None, '%d accesses wrap' % t
    attempt('ring-wraps', 'RingBuffer', ring, W('R_at'))

    # --- recursive filter
    def make(A, B, how):
        s = Shape(prog)
        F = s.obj('F', None)
        if how == 'ctor':
            s.run(W('iir_ctor'), [F, A, B])
        else:
            s.run(W('iir_ctor'), [F, 0, 0])
            for w, n in (('asize', A), ('bsize', B)) if how[:2] == 'ab' else (('bsize', B), ('asize', A)):
                s.run(W('iir_' + w), [F, n])
            if how == 'abr':
                s.run(W('iir_reserve'), [F])
        for k in range(A):
            s.run(W('iir_set_a'), [F, k, atom('a', k)])
        for k in range(B):
            s.run(W('iir_set_b'), [F, k, atom('b', k)])
        return s, F
    def filt(how, A, B):
        def go():
            n = max(A, B, 1)
            N = 2 * n + 3 if n < 4 or deep else n + 5
            s, F = make(A, B, how)
            x = [atom('x', k) for k in range(N)]
            want = recurrence(x, A, B)
            X, Y = s.array('in', x), s.array('out', [num_of(0)] * N)
            cuts = [N] if how == 'ctor' else [2, 1, N - 3] if how[:2] == 'ab' else [1] * N
            p = 0
            for c in cuts:
                if how == 'ba' and p % 2:
                    s.array(('io', p), x[p:p + c])
                    s.run(W('iir_inplace'), [F, ('p', ('io', p), 0), c])
                    for k, v in enumerate(s.cells(('p', ('io', p), 0), c)):
                        s.put(('p', 'out', 8 * (p + k)), v)
                else:
                    s.run(W('iir_process'), [F, ('p', 'in', 8 * p), c, ('p', 'out', 8 * p)])
                p += c
            got = s.cells(Y, N)
            for k in range(N):
                if got[k] != want[k]:
                    return 'output %d with %d and %d coefficients is %s instead of %s' % (k, A, B, got[k], want[k]), None
            if s.cells(X, N) != x:
                return 'the input changes', None
            return None, '%d outputs follow the recurrence' % N
        return go
    for A in range(0, top + 1):
        for B in range(0, top + 1):
            for how in ('ctor', 'ab', 'ba') + (('abr',) if A == 2 or deep else ()):
                attempt('recurrence', 'IIRFilter %d/%d %s' % (A, B, how), filt(how, A, B), W('iir_process'))
    def steady(A, B):
        def go():
            s, F = make(A, B, 'ctor')
            s.array('in', [num_of(0)])
            s.array('out', [num_of(0)])
            seen = []
            for k in range(6 * max(A, B, 1) + 4):
                s.run(W('iir_process'), [F, ('p', 'in', 0), 1, ('p', 'out', 0)])
                a, b = control(s, F, k)
                if (a, b) in seen:
                    return None, 'the indices recur after %d samples' % (k - seen.index((a, b)))
                seen.append((a, b))
            narrow = [a for a, b in seen]
            if narrow[-1] not in narrow[:-1]:
                return 'an index keeps growing and overflows on long signals', None
            return None, 'only counters of the full width keep growing'
        return go
    for A, B in ((1, 1), (2, 1), (1, 3), (3, 3)):
        attempt('any-length', 'IIRFilter %d/%d' % (A, B), steady(A, B), W('iir_process'))
    def coefs():
        for A, B in ((1, 1), (3, 2), (0, 2), (2, 0)):
            s, F = make(A, B, 'ctor')
            if s.run(W('iir_get_asize'), [F]) != A or s.run(W('iir_get_bsize'), [F]) != B:
                return 'the number of coefficients is wrong', None
            for n, c in (('a', A), ('b', B)):
                for k in range(c):
                    if s.run(W('iir_get_' + n), [F, k]) != atom(n, k):
                        return 'coefficient %s[%d] is not the one set' % (n, k), None
                p, q = s.run(W('iir_%sbegin' % n), [F]), s.run(W('iir_%send' % n), [F])
                if q[2] - p[2] != 8 * c or s.cells(p, c) != [atom(n, k) for k in range(c)]:
                    return 'iterating the coefficients %s does not give them' % n, None
        return None, 'coefficients are kept'
    attempt('coefficients', 'IIRFilter', coefs, W('iir_set_a'))
    def single():
        for A in range(0, 4):
            for B in range(0, 4):
                for extra in (0, 2):
                    s = Model(prog)
                    nx, ny = max(A, 1) + extra, max(B, 1) + extra
                    hx, hy = [atom('x', -1 - k) for k in range(nx)], [atom('y', -1 - k) for k in range(ny)]
                    X, Y = s.deque('X', hx), s.deque('Y', hy)
                    a, b = s.array('a', [atom('a', k) for k in range(A)]), s.array('b', [atom('b', k) for k in range(B)])
                    r = s.run(W('iir_single'), [atom('in'), X, Y, a, b, A, B])
                    w = num_of(0)
                    for k in range(A):
                        w = w + atom('a', k) * ([atom('in')] + hx)[k]
                    for k in range(B):
                        w = w + atom('b', k) * hy[k]
                    if r != w:
                        return 'the output with %d and %d coefficients is %s instead of %s' % (A, B, r, w), None
                    if s.dcells(X) != ([atom('in')] + hx)[:nx] or s.dcells(Y) != ([w] + hy)[:ny]:
                        return 'the history does not move by one sample', None
        return None, 'outputs and histories agree'
    attempt('recurrence', 'iir_recursive_single', single, W('iir_single'))

    # --- single pole filter
    def pole():
        t = 0
        for fh, fl in ((0.25, 0.1), (0.01, 0.4), (0.0, 0.5), (0.125, 0.0)):
            for ty in (0, 1):
                for order in (0, 1):
                    s = Shape(prog)
                    P = s.obj('P', None)
                    s.lazy['P'] = lambda off, n: 0 if n <= 4 else Poly({})
                    base = W('sp_ctor')
                    s.lazy.pop('P')
                    s.run(base, [P])
                    if order:       # coefficients generated for another filter before
                        s.run(W('sp_type'), [P, 1 - ty])
                        s.run(W('sp_set_fhigh'), [P, num_of(0.3)])
                        s.run(W('sp_set_flow'), [P, num_of(0.2)])
                        s.run(W('sp_generate'), [P])
                    s.run(W('sp_type'), [P, ty])
                    s.run(W('sp_set_fhigh'), [P, num_of(fh)])
                    s.run(W('sp_set_flow'), [P, num_of(fl)])
                    s.run(W('sp_generate'), [P])
                    x = math.exp(-2 * math.pi * (fl if ty else fh))
                    want = ([(1 + x) / 2, -(1 + x) / 2], [x]) if ty else ([1 - x], [x])
                    got = tuple([s.run(W('sp_get_' + n), [P, k]) for k in range(s.run(W('sp_%ssize' % n), [P]))] for n in 'ab')
                    t += 1
                    if [len(g) for g in got] != [len(w) for w in want] or any(g != num_of(w) for gs, ws in zip(got, want) for g, w in zip(gs, ws)):
                        return 'type %d for the fractions %s and %s gets the coefficients %s instead of %s' % (ty, fh, fl, got, want), None
        for rate, fr in ((48000, 1200.0), (44100, 441.0), (1000, 500.0)):
            s = Shape(prog)
            P = s.obj('P', None)
            s.run(W('sp_ctor'), [P])
            s.run(W('sp_set_rate'), [P, rate])
            for hi, lo in (('high', 'fhigh'), ('low', 'flow')):
                s.run(W('sp_set_' + hi), [P, num_of(fr)])
                if s.run(W('sp_' + lo), [P]) != num_of(fr / rate) or s.run(W('sp_' + hi), [P]) != num_of(fr) or s.run(W('sp_rate'), [P]) != rate:
                    return 'a cutoff of %s at rate %d becomes the fraction %s' % (fr, rate, s.run(W('sp_' + lo), [P])), None
        return None, '%d settings agree' % t
    attempt('single-pole', 'SinglePole', pole, W('sp_generate'))
