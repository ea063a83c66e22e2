"""D01 every way of addressing a buffer agrees on one layout."""
from outcome import *
LEVEL = 'other'
EXPLANATION = ('Every accessor, iterator operation and container operation of the buffers (witness instantiations of the resizable and the fixed-size buffer, every iterator kind, const and mutable) is reduced to its path formulas over the state of the buffer, '
               'which are evaluated exactly over a grid of channel counts, lengths, positions and offsets and must give the index, channel, sample, address or final buffer the layout rule prescribes: sample s of channel c is element c + s*channels.')
ASSUMPTIONS = ['buffers hold a whole number of frames', 'std::vector behaves as the standard says', 'the iterator operations are used inside the buffer or one past its end']
A = OBJ[0]

def states(kind, deep):
    """(memory, vectors, channels, samples per channel, address of the elements)"""
    if kind == 'S':
        for c in (1, 2, 3, 4, 6, 12):
            yield {A + 96: c, A + 104: Fraction(48000)}, {}, c, 12 // c, A
        return
    for c in (1, 2, 3, 5) + ((4, 7, 8) if deep else ()):
        for s in (1, 2, 3, 4) + ((6, 7) if deep else ()):
            yield {A + 24: c, A + 32: Fraction(44100)}, {A: [Fraction(100 + k) for k in range(c * s)]}, c, s, data(A)

def spec(name):
    """expected result of a witness: function (C, S, D, k, n) -> dict of cells of the out record, or a returned value, or None where nothing is required"""
    seq, inter = lambda C, S, i: (i // S, i % S), lambda C, S, i: (i % C, i // C)
    return seq if name in ('s', 'sc') else inter

STEP = {'at': lambda k, n: k, 'preinc': lambda k, n: k + 1, 'predec': lambda k, n: k - 1, 'postinc': lambda k, n: k + 1, 'postdec': lambda k, n: k - 1,
        'postincv': lambda k, n: k, 'postdecv': lambda k, n: k, 'addeq': lambda k, n: k + n, 'addequ': lambda k, n: k + n, 'addequl': lambda k, n: k + n, 'addeql': lambda k, n: k + n,
        'subeq': lambda k, n: k - n, 'add': lambda k, n: k + n, 'addu': lambda k, n: k + n, 'addul': lambda k, n: k + n, 'addl': lambda k, n: k + n, 'minus': lambda k, n: k - n, 'addi': lambda k, n: k + n}

def run(ctx):
    deep = ctx.tier == 'thorough'
    prog = ctx.program(['^wit_[BS]_'], wits=('buf.cpp',))
    O = OBJ[3]
    count = 0
    for f in sorted(prog.find('^wit_[BS]_'), key=lambda f: f.name):
        parts = f.name[4:].split('_')
        kind, it, op = parts[0], parts[1] if len(parts) == 3 else None, parts[-1]
        ctx.fn(f)
        try:
            out = Outcome(f)
        except (Unknown, AnalysisError) as u:
            ctx.ob('addressing', f.name[4:], False, 'not a straight function of the buffer: %s' % u, f.where(None))
            continue
        bad, tried = None, 0
        for mem, vecs, C, S, D in states(kind, deep):
            if bad:
                break
            try:
                if it in ('s', 'i', 'sc', 'ic'):
                    bad, t = iterator(out, it, op, mem, vecs, C, S, D, O)
                elif it is None:
                    bad, t = whole(out, kind, op, mem, vecs, C, S, D)
                else:
                    bad, t = whole(out, kind, it + '_' + op, mem, vecs, C, S, D)
                tried += t
            except Unknown as u:
                bad = 'depends on %s' % u
            except (KeyError, TypeError) as u:
                bad = 'depends on something else than the buffer (%s)' % u
        count += 1
        ctx.ob('addressing', f.name[4:], bad is None and tried > 0, bad or '%d positions agree' % tried, f.where(None))
    ctx.need('buffer operations', count, 140)

def iterator(out, it, op, mem, vecs, C, S, D, O):
    """check one iterator operation over all positions of one buffer shape"""
    n, where = C * S, (lambda i: (i // S, i % S)) if it[0] == 's' else (lambda i: (i % C, i // C))
    addr = lambda i: D + 8 * (where(i)[0] + C * where(i)[1])
    t = 0
    def desc(k, x):
        return '%d channels of %d samples, position %d, operand %d' % (C, S, k, x)
    for k in range(0, n + 1):
        for x in range(-n, n + 1):
            if op in ('pos',):
                if not (0 <= k < C and 0 <= x < S):
                    continue
                i = k * S + x if it[0] == 's' else k + C * x
            elif op in ('setch', 'setsm'):
                if not (0 <= k < (C if op == 'setch' else S) and 0 <= x < n):
                    continue
                i = k * S if op == 'setch' else k * C
            elif op in ('sub', 'csub'):
                if not (k < n and 0 <= x < n):
                    continue
                i = x
            elif op in ('diff', 'cmp'):
                if not 0 <= x <= n:
                    continue
                i = None
            elif op == 'base':
                if k == n:
                    continue
                i = k
            else:
                if STEP[op](1, 2) in (2, 0, 1) and x != 0 and op not in ('subeq', 'minus'):
                    continue            # the operand is unused
                if op in ('addequ', 'addu', 'addul', 'addequl') and x < 0:
                    continue
                i = STEP[op](k, x)
                if not 0 <= i <= n:
                    continue
            t += 1
            w, v, r = out.at({0: A, 1: k, 2: x, 3: O}, mem, vecs)
            extra = [a for a in w if isinstance(a, tuple) or not O <= a < O + 32 and not a >= 9 << 20]
            if extra or v != vecs:
                return 'changes the buffer at %s' % desc(k, x), t
            if op in ('sub', 'csub'):
                if r != addr(i):
                    return 'refers to element %s instead of %d (%s)' % (el(r, D), (addr(i) - D) // 8, desc(k, x)), t
            elif op == 'diff':
                if w[O] != k - x:
                    return 'difference %d instead of %d (%s)' % (w[O], k - x, desc(k, x)), t
            elif op == 'cmp':
                e = (k == x) | (k != x) << 1 | (k < x) << 2 | (k > x) << 3 | (k <= x) << 4 | (k >= x) << 5
                if w[O] != e:
                    return 'comparisons give %s instead of %s (%s)' % (bin(w[O]), bin(e), desc(k, x)), t
            else:
                if w[O] != i:
                    return 'index %d instead of %d (%s)' % (w[O], i, desc(k, x)), t
                if i < n and w[O + 8] != addr(i):
                    return 'refers to element %s instead of %d (%s)' % (el(w[O + 8], D), (addr(i) - D) // 8, desc(k, x)), t
                if i < n and op != 'base' and (w[O + 16], w[O + 24]) != where(i):
                    return 'channel and sample (%s, %s) instead of %s (%s)' % (w[O + 16], w[O + 24], where(i), desc(k, x)), t
    return None, t

def el(a, D):
    return '%s' % Fraction(a - D, 8)

def whole(out, kind, op, mem, vecs, C, S, D):
    n, t = C * S, 0
    B = OBJ[1]
    nch, rate = (A + 24, A + 32) if kind == 'B' else (A + 96, A + 104)
    def call(args, m=None, v=None):
        w, vv, r = out.at(dict(enumerate(args)), {**mem, **(m or {})}, {**vecs, **(v or {})})
        return {a: q for a, q in w.items() if isinstance(a, tuple) or a < 9 << 20 or a >= 1 << 50}, vv, r
    shape = '%d channels of %d samples' % (C, S)
    if op in ('at2', 'cat2'):
        for c in range(C):
            for s in range(S):
                w, v, r = call([A, c, s])
                t += 1
                if w or r != D + 8 * (c + C * s):
                    return 'sample %d of channel %d is element %s instead of %d (%s)' % (s, c, el(r, D), c + C * s, shape), t
        return None, t
    if op in ('at1', 'cat1'):
        for i in range(n):
            w, v, r = call([A, i])
            t += 1
            if w or r != D + 8 * i:
                return 'element %d is found at %s' % (i, el(r, D)), t
        return None, t
    const = {'size': n, 'cap': S, 'channels': C, 'rate': mem[rate], 'sbegin': 0, 'ibegin': 0, 'begin': 0, 'scbegin': 0, 'icbegin': 0, 'send': n, 'iend': n, 'end': n, 'scend': n, 'icend': n,
             'srbegin': n, 'irbegin': n, 'srend': 0, 'irend': 0}
    if op in const:
        w, v, r = call([A])
        return (None if not w and v == vecs and r == const[op] else 'gives %s instead of %s (%s)' % (r, const[op], shape)), 1
    if op == 'set_channels' or op == 'set_rate':
        for x in ((1, 2, 7) if op == 'set_channels' else (Fraction(8000), Fraction(96000), Fraction(1, 2))):
            w, v, r = call([A, x])
            t += 1
            if w != {(nch if op == 'set_channels' else rate): x} or v != vecs:
                return 'setting %s writes %s' % (x, w), t
        return None, t
    if op in ('ctor', 'ctoru') and kind == 'B':
        w, v, r = call([A, S, C, Fraction(48000)], v={A: []})
        w = {a: q for a, q in w.items() if a >= A + 24}
        return (None if w.get(nch) == C and w.get(rate) == 48000 and len(w) == 2 and v[A] == [0] * n else 'a buffer of %s gets %d elements, %s channels' % (shape, len(v[A]), w.get(nch))), 1
    if op == 'ctor':
        w, v, r = call([A, C, Fraction(48000)])
        z = [w.get(A + 8 * k) for k in range(n)]
        return (None if w.get(nch) == C and w.get(rate) == 48000 and z == [0] * n else 'a buffer of %d channels gets %s channels, elements %s' % (C, w.get(nch), z)), 1
    if op == 'ctorv':
        src = [Fraction(7 * k + 1) for k in range(n)]
        w, v, r = call([A, B, C, Fraction(48000)], v={B: src})
        return (None if w.get(nch) == C and w.get(rate) == 48000 and v[A] == src and v[B] == src else 'a buffer made of a vector holds %d elements, %s channels' % (len(v[A]), w.get(nch))), 1
    if op in ('ctorit', 'ctoril'):
        src = [Fraction(7 * k + 1) for k in range(n)]
        w, v, r = call([A, data(B), data(B) + 8 * n if op == 'ctorit' else n, C, Fraction(48000)], v={B: src})
        return (None if w.get(nch) == C and w.get(rate) == 48000 and v[A] == src and v[B] == src else 'a buffer made of a range holds %d of %d elements, %s channels' % (len(v[A]), n, w.get(nch))), 1
    if op == 'vmassign':
        src = [Fraction(7 * k + 1) for k in range(n + 2)]
        w, v, r = call([A, B], v={B: src})
        return (None if v[A] == src and not w else 'assigning a vector gives %d elements and writes %s' % (len(v[A]), w)), 1
    if op == 'ctord':
        w, v, r = call([A])
        return (None if w.get(nch) == 1 and w.get(rate) == 44100 and v[A] == [] else 'an empty buffer has %s channels, rate %s' % (w.get(nch), w.get(rate))), 1
    if op in ('copy', 'move', 'assign', 'massign'):
        src = [Fraction(7 * k + 1) for k in range(n + 3)]
        w, v, r = call([A, B], m={B + 24: C + 2, B + 32: Fraction(8000)}, v={B: src})
        if not (w.get(nch) == C + 2 and w.get(rate) == 8000 and v[A] == src):
            return '%s gives %d of %d elements, %s channels, rate %s' % (op, len(v[A]), n + 3, w.get(nch), w.get(rate)), 1
        if op in ('copy', 'assign') and (v[B] != src or any(a >= B for a in w)):
            return '%s changes its source' % op, 1
        return None, 1
    if op == 'vassign':
        src = [Fraction(7 * k + 1) for k in range(n + 2)]
        w, v, r = call([A, B], v={B: src})
        return (None if v[A] == src and v[B] == src and not w else 'assigning a vector gives %d elements and writes %s' % (len(v[A]), w)), 1
    if op == 'resize':
        for m in (0, n, n + 2, max(0, n - 1)):
            w, v, r = call([A, m])
            e = (vecs[A] + [Fraction(0)] * max(0, m - n))[:m]
            t += 1
            if w or v[A] != e:
                return 'resizing to %d gives %d elements' % (m, len(v[A])), t
        return None, t
    if op in ('reserve', 'shrink'):
        w, v, r = call([A, 40])
        return (None if all(isinstance(a, tuple) for a in w) and v == vecs else '%s changes the buffer' % op), 1
    if op == 'push':
        w, v, r = call([A, B], m={B: Fraction(5, 3)})
        return (None if not w and v[A] == vecs[A] + [Fraction(5, 3)] else 'push_back gives %d elements' % len(v[A])), 1
    if op == 'clear':
        w, v, r = call([A])
        return (None if not w and v[A] == [] else 'clear leaves %d elements' % len(v[A])), 1
    raise Unknown('operation %s' % op)
