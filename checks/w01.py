"""W01 wave structures are encoded and decoded bit for bit."""
from bits import *
LEVEL = 'other'
EXPLANATION = ('Bit-provenance abstract interpretation of every encode and decode of the wave structures (all paths): each bit of each written byte, and each bit of each field after decoding, must be the specified bit of the specified field or stream byte '
               '(little-endian, RIFF offsets). The number of bytes read and written, the size() constants and the default field values are compared with the RIFF/WAVE layout.')
ASSUMPTIONS = ['chunk identifiers hold at least four characters', 'std::string and std::vector follow their specification']

def ids(S):
    return [('raw', tuple((('m', S, k), q) for q in range(8))) for k in range(4)]
def le(base, off, n):
    return [('raw', tuple((('m', base, off + k), q) for q in range(8))) for k in range(n)]
def text(s):
    return [('raw', cint(ord(c), 8)[1]) for c in s]
def const(v, n):
    return [('raw', tuple((v >> (8 * k + q)) & 1 for q in range(8))) for k in range(n)]
def stream(k, n):
    return [('raw', tuple((('in', k + j), q) for q in range(8))) for j in range(n)]
def show(b):
    if b is None:
        return 'unknown'
    if b[0] != 'raw':
        return 'other'
    n = value(('i', b[1]))
    if n is not None:
        return '%02x' % n
    if b[1][0] and b[1] == tuple((b[1][0][0], b[1][0][1] + k) for k in range(8)):
        return bitname(b[1][0])
    return 'mixed bits (%s ... %s)' % (bitname(b[1][0]), bitname(b[1][7]))
def bitname(x):
    if x is None:
        return 'unknown'
    if x in (0, 1):
        return str(x)
    n, k = x
    if isinstance(n, tuple) and n[0] == 'in':
        return 'stream byte %d bit %d' % (n[1], k)
    if isinstance(n, tuple) and n[0] == 'm':
        o = n[1]
        return '%s+%d bit %d' % ('string at ' + str(o[2]) if o[0] == 'str' else 'object' if o == ('arg', 0) else 'array' if o == ('arg', 1) else str(o[0]), n[2], k)
    return '%s bit %d' % (str(n)[:60], k)

def written(st):
    """all bytes written, in order, or None when a write has an unknown size"""
    r = []
    for o in st.x.get('ops', []):
        if o[0] == 'write':
            if o[1] is None:
                return None
            r += o[1]
    return r
def compare(got, want):
    if got is None:
        return 'the number of bytes written is not fixed'
    if len(got) != len(want):
        return '%d bytes instead of %d' % (len(got), len(want))
    for k, (a, b) in enumerate(zip(got, want)):
        if a != b:
            return 'byte %d is %s instead of %s' % (k, show(a), show(b))
    return None
def ops(st, *names):
    return [o for o in st.x.get('ops', []) if o[0] in names]

def states(f):
    i = StreamInterp(f)
    r = i.run()
    if i.cut:
        raise Top('a loop of unknown length')
    return [s for s, _, _ in r], [v for _, v, _ in r]

def strptr(prog, st, off):
    """contents of the string member at off"""
    return [st.byte(('str', ('arg', 0), off), k) for k in range(4)]

TR = [r'^ChunkHeader::', r'^WavHeader::', r'^WavFormat::', r'^UnknownChunk::']

def run(ctx):
    prog = ctx.program([r'^(ChunkHeader|WavHeader|WavFormat|UnknownChunk)::(encode|decode)\(', r'^wit_(chunk|whead|wform|unk)_(ctor|size)$'],
                       wits=('wav.cpp',), purevcalls=False, transparent=TR)
    A = ('arg', 0)
    o = lambda c, m: prog.off(c, m)
    I, S = o('ChunkHeader', 'chunk_id'), o('ChunkHeader', 'chunk_size')
    head = lambda: ids(('str', A, I)) + le(A, S, 4)
    fm = o('WavHeader', 'format')
    FIELDS = [('format', 2), ('channels', 2), ('sample_rate', 4), ('byte_rate', 4), ('block_align', 2), ('bits_per_sample', 2)]
    FO = {m: o('WavFormat', m) for m, n in FIELDS}
    DA = o('UnknownChunk', 'data')
    dsize = ('diff', (('deref', A, DA + 8), 0), (('deref', A, DA), 0))
    n = 0
    for f in prog.fns.values():
        if f.name.startswith('wit_'):
            continue
        ctx.fn(f)
        n += 1
        cls, op = f.dem.split('(')[0].split('::')
        site, wh = f.dem, f.where(None)
        mem = f.dem.endswith('(char*)')
        try:
            sts, _ = states(f)
        except Top as t:
            ctx.ob('layout', site, False, 'the bytes do not follow from the fields: %s' % t, wh)
            continue
        for st in sts:
            other = [x for x in st.x.get('ops', []) if x[0] not in ('read', 'write')]
            if other:
                ctx.ob('layout', site, False, 'does something else: %s %s' % (other[0][0], other[0][1]), f.where(other[0][4]))
                continue
            if op == 'encode':
                if ops(st, 'read'):
                    ctx.ob('layout', site, False, 'encoding reads', wh)
                    continue
                want = head()
                if cls == 'WavHeader':
                    want += ids(('str', A, fm))
                if cls == 'WavFormat':
                    for m, k in FIELDS:
                        want += le(A, FO[m], k)
                if cls == 'UnknownChunk':
                    want = ids(('str', A, I)) + [('raw', tuple((dsize, 8 * k + q) for q in range(8))) for k in range(4)]
                    w = ops(st, 'write')
                    tail = w[-1] if w else None
                    ok = tail is not None and tail[1] is None and tail[2] == ('p', ('deref', A, DA), 0) and tail[3][0] == 'i' and linear(tail[3]) == {dsize: 1}
                    ctx.ob('layout', site + ' data', ok, 'the data follows the header, whole' if ok else 'what is written after the header is not the whole data', wh)
                    st.x['ops'] = [x for x in st.x['ops'] if x is not tail]
                    keep = [st.byte(A, S + k) for k in range(4)]
                    ctx.ob('layout', site + ' size field', keep == want[4:], 'chunk_size becomes the size of the data', wh)
                got = [st.byte(('arg', 1), k) for k in range(8)] if mem else written(st)
                if mem:
                    extra = [k for k in st.mem if k[0] == ('arg', 1) and not 0 <= k[1] < 8]
                    if extra or st.whole.get(('arg', 1)):
                        got = got + [None]
                d = compare(got, want)
                ctx.ob('layout', site, d is None, d or '%d bytes, every bit from its field' % len(want), wh)
                ch = [k for k in st.mem if k[0] in (A, ('str', A, I), ('str', A, fm)) and not (cls == 'UnknownChunk' and k[0] == A and S <= k[1] < S + 4)]
                ctx.ob('unchanged', site, not ch, 'encoding changes the structure' if ch else 'encoding leaves the structure alone', wh)
            else:
                if ops(st, 'write'):
                    ctx.ob('layout', site, False, 'decoding writes', wh)
                    continue
                src = (lambda k, n: le(('arg', 1), k, n)) if mem else stream
                exp = {}
                if cls in ('ChunkHeader', 'WavHeader'):
                    exp['chunk_id'] = (strptr(prog, st, I), src(0, 4))
                    exp['chunk_size'] = ([st.byte(A, S + k) for k in range(4)], src(4, 4))
                    total = 8
                if cls == 'WavHeader':
                    exp['format'] = (strptr(prog, st, fm), src(8, 4))
                    total = 12
                if cls == 'WavFormat':
                    k = 0
                    for m, w in FIELDS:
                        exp[m] = ([st.byte(A, FO[m] + j) for j in range(w)], src(k, w))
                        k += w
                    total = 16
                if cls == 'UnknownChunk':
                    r = ops(st, 'read')
                    ok = len(r) == 1 and r[0][2] == ('p', ('deref', A, DA), 0) and isinstance(r[0][3], tuple) and linear(r[0][3]) == {dsize: 1}
                    ctx.ob('layout', site, ok, 'the data is filled from the stream, whole' if ok else 'the data is not filled exactly', wh)
                    continue
                for m, (a, b) in exp.items():
                    d = compare(a, b)
                    ctx.ob('layout', site + ' ' + m, d is None, d or 'every bit from its stream byte', wh)
                if not mem:
                    sz = [x[3] for x in ops(st, 'read')]
                    ok = all(isinstance(x, int) for x in sz) and sum(sz) == total
                    ctx.ob('amount', site, ok, 'reads %s bytes' % sz, wh)
                fields = {S + k for k in range(4)} if cls != 'WavFormat' else {FO[m] + j for m, w in FIELDS for j in range(w)}
                ch = sorted({k[1] for k in st.mem if k[0] == A} - fields)
                ctx.ob('unchanged', site, not ch, 'decoding also changes offset %s' % ch if ch else 'decoding changes only its fields', wh)
    ctx.need('encode and decode functions', n, 10)
    for w, want in (('chunk', 8), ('whead', 12), ('wform', 24)):
        f = prog.one('^wit_%s_size$' % w)
        for v in states(f)[1]:
            ctx.ob('size', w, value(v) == want, 'size() is %s' % value(v), f.where(None))
    f = prog.one('^wit_unk_size$')
    for v in states(f)[1]:
        ctx.ob('size', 'unknown chunk', linear(v) == {dsize: 1, 1: 8}, 'size() is the data and eight bytes', f.where(None))
    for w, idt, size in (('chunk', '    ', 0), ('whead', 'RIFF', 0), ('wform', 'fmt ', 16)):
        f = prog.one('^wit_%s_ctor$' % w)
        for st in states(f)[0]:
            d = compare(strptr(prog, st, I), text(idt)) or compare([st.byte(A, S + k) for k in range(4)], const(size, 4))
            if w == 'whead':
                d = d or compare(strptr(prog, st, fm), text('WAVE'))
            if w == 'wform':
                d = d or compare([st.byte(A, FO['format'] + k) for k in range(2)], const(1, 2))
            ctx.ob('default', w, d is None, d or 'identifier and size have the standard values', f.where(None))
    f = prog.one('^wit_unk_ctor$')
    for st in states(f)[0]:
        c = [x for x in st.x.get('ops', []) if x[0] == 'call' and 'vector' in x[1]]
        ok = [st.byte(A, S + k) for k in range(4)] == [('raw', tuple((('arg', 1), 8 * k + q) for q in range(8))) for k in range(4)] and \
            (len(c) == 1 and c[0][2][0] == ('p', A, DA) and c[0][2][1][0] == 'i' and c[0][2][1][1][:32] == sym(('arg', 1), 32)[1] and set(c[0][2][1][1][32:]) <= {0})
        ctx.ob('default', 'unknown chunk', ok, 'size field and data have the given size', f.where(None))
