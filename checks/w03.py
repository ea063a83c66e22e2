"""W03 the wave reader walks every chunk and delivers the samples of the data chunks."""
from evalt import *
import bits, w01
from bits import SegInterp, Top, number, feasible, linear, value
import itertools
LEVEL = 'other'
EXPLANATION = ('start(): bit-provenance abstract interpretation: which stream byte each format field comes from, the counters after it, and how many bytes of the format chunk are skipped. get_data() and skip(): the control flow is cut at the headers of the loops that read; '
               'the transfer function of every segment between cuts (final fields, stream operations and branch conditions as expressions over the fields, the header bytes and the running index) is extracted by abstract interpretation and compared with the specified chunk-walk '
               'step over a grid of reader states (exactly one segment must apply). The sample loops are decided from their one-iteration summary: count, source bytes, conversion and destination index; each step consumes input or ends, so the walk terminates.')
ASSUMPTIONS = ['a started stream delivers the bytes of the file in order and becomes bad at its end (W06, W07)', 'byte and sample conversions are those of W02', 'sizes and counts stay below 2^31 where the interface uses int']
R, TOT, CR, NEED, BUF, STR = ('arg', 1), None, None, None, None, None

def run(ctx):
    prog = ctx.program([r'^WaveReader::(get_data|skip|start|stop|done)\(', '^wit_bw_get_', '^wit_wr_'], wits=('wav.cpp',), purevcalls=False, opaque=[r'^(u?int16|uchar|char)_mf', 'basic_string.*compare'],
                       pure=[r'^(u?int16|uchar|char)_mf'], transparent=w01.TR + ['^BaseWave::'], keep=[r'WaveReader::(skip|stop)\('])
    o = {n: member_via(prog, 'wit_bw_get_' + n) for n in ('format', 'channels', 'samplerate', 'byterate', 'blockalign', 'bits_per_sample', 'bytes_per_sample', 'size')}
    for n in ('buffer_size', 'chunk_read', 'total_read', 'stream', 'head', 'needs_chunk'):
        o[n] = prog.off('WaveReader', n)
    o['head_size'] = o['head'] + prog.off('ChunkHeader', 'chunk_size')
    o['head_id'] = o['head'] + prog.off('ChunkHeader', 'chunk_id')
    W = {n: prog.layout('WaveReader')[n][1] for n in ('chunk_read', 'total_read', 'buffer_size')}
    skip(ctx, prog, o)
    start(ctx, prog, o)
    data(ctx, prog, o, W)
    f = prog.one(r'^wit_wr_done$')
    ctx.fn(f)
    for tot, size, stt in itertools.product((0, 1, 44, 99, 100, 101, 0x80000000, 0xfffffff0), (0, 44, 100, 0x7fffffff, -16), (0, 1, 2, 3)):
        def env(nm):
            if nm[0] == 'm' and nm[1] == ('arg', 0):
                for k, v in (('total_read', tot), ('size', size)):
                    if o[k] <= nm[2] < o[k] + 4:
                        return (v & 0xffffffff) >> (8 * (nm[2] - o[k])) & 255
            if nm[0] == 'm' and nm[1] == ('deref', ('arg', 0), o['stream']):
                return (stt >> (8 * (nm[2] - 8))) & 255 if 8 <= nm[2] < 12 else None
        try:
            r = [number(v, env) for st, v, cs in SegInterp(f).run() if feasible(cs, env)]
            want = int(tot >= size % (1 << 32) or stt >= 2)
            ok, det = r == [want], 'with %d of %d read and stream state %d done() is %s' % (tot, size, stt, r)
        except Top as t:
            ok, det = False, str(t)
        if not ok:
            break
    ctx.ob('done', 'WaveReader::done', ok, 'done at the end of the file and when the stream is bad' if ok else det, f.where(None))

def reading(f):
    return {h for h, l in f.loops.items() if any((e.kind in ('vcall', 'call')) and e.name in ('read', 'skip') for b, e in f.all_events() if b in l.blocks)}

def counted(f, stops):
    """single-exit loops that do not read: header -> (exit block, target); loops with constant counts are left to unrolling"""
    sk = {}
    for h, l in f.loops.items():
        if h in stops or l.count() is None or isconst(l.count()) or len(l.exits) != 1:
            continue
        if any(g != h and h in f.loops[g].blocks and g in sk for g in f.loops):
            continue
        nx = [s for s in f.succ[l.exits[0]] if s not in l.blocks]
        if len(nx) == 1:
            sk[h] = (l.exits[0], nx[0])
    return sk

def role(f, pid, depth=0):
    """what a loop-header value starts from: ('const', n), ('field', offset), ('arg', k)"""
    i = f.ins[pid]
    b = f.block_of[pid]
    l = f.loops.get(b)
    out = [x[0] for x in i['a'] if l is None or x[1] not in l.blocks]
    r = set()
    for x in out:
        if x[0] == 'c':
            r.add(('const', x[1]))
        elif x[0] == 'v' and f.ins.get(x[1], {}).get('o') == 'phi' and depth < 6:
            r.add(role(f, x[1], depth + 1))
        else:
            t = drop_version(f.lift(f.op(x)))
            if t[0] == 'ld':
                d = base_off(t[1])
                r.add(('field', d[1]))
            elif t[0] == 'arg':
                r.add(t)
            elif t[0] == 'i':
                r.add(('const', t[1]))
            else:
                r.add(('term', tstr(t)))
    return r.pop() if len(r) == 1 else None

class Seg(SegInterp):
    def loopphi(self, st, i):
        m = bits.TW.match(i['t'])
        return bits.sym(('lp', i['i']), int(m.group(1))) if m else ('o', ('lp', i['i']))

def segments(f, obj, o, skipname='WaveReader::skip'):
    stops = reading(f)
    sk = counted(f, stops)
    out = []
    for s in [None] + sorted(stops):
        ci = Seg(f, total=(obj, o['total_read']), skipname=skipname)
        for st, r, cs in ci.run(start=s, stops=stops, skip=sk):
            out.append((s, r[1:] if r is not None and r[0] == 'to' else None, st, cs, r))
        if ci.cut:
            raise Top('a loop of unknown length')
    return stops, sk, out

# ------------------------------------------------------------ skip
def skip(ctx, prog, o):
    f = prog.one(r'^WaveReader::skip\(')
    ctx.fn(f)
    T, wh, why = ('arg', 0), f.where(None), None
    n = 0
    try:
        stops, sk, segs = segments(f, T, o)
        if len(stops) != 1:
            raise Top('%d reading loops' % len(stops))
        h = list(stops)[0]
        arr = [i['bytes'] if 'bytes' in i else None for b in f.blocks.values() for i in b['ins'] if i['o'] == 'alloca']
        for num, stt, tot in itertools.product((0, 1, 7, 511, 512, 513, 1024, 1025, 70000, 0x7fffffff, 0x80000000, 0xffffffff), (0, 1, 2, 3), (0, 44, 0xfffffff0)):
            def env(nm):
                if nm[0] == 'phi':
                    r = role(f, nm[1])
                    if r == ('arg', 1):
                        return num
                    if r == ('field', o['total_read']):
                        return tot
                    return None
                if nm == ('arg', 1):
                    return num
                if nm[0] == 'm' and nm[1] == T and o['total_read'] <= nm[2] < o['total_read'] + 4:
                    return (tot >> (8 * (nm[2] - o['total_read']))) & 255
                if nm[0] == 'm' and nm[1] == ('deref', T, o['stream']) and 8 <= nm[2] < 12:
                    return (stt >> (8 * (nm[2] - 8))) & 255
            ok = [x for x in segs if x[0] == h and feasible(x[3], env)]
            if len(ok) != 1:
                why = '%d steps apply with %d left' % (len(ok), num)
                break
            s, to, st, cs, r = ok[0]
            ops = st.x.get('ops', [])
            n += 1
            if num == 0 or stt >= 2:
                if to is not None or ops:
                    why = 'does not end with %d bytes left and stream state %d' % (num, stt)
                    break
                continue
            if to is None:
                why = 'ends with %d bytes left' % num
                break
            rd = [x for x in ops if x[0] == 'read']
            if len(ops) != 1 or len(rd) != 1:
                why = 'one step does %s' % [x[0] for x in ops]
                break
            a = rd[0][3] if isinstance(rd[0][3], int) else number(rd[0][3], env, True)
            buf = rd[0][2]
            size = alloca_size(f, buf)
            if not 0 < a <= num:
                why = 'reads %d bytes with %d left' % (a, num)
            elif size is None or buf[2] is None or buf[2] + a > size:
                why = 'reads %d bytes into an area of %s' % (a, size)
            ph = [i for i in f.blocks[to[0]]['ins'] if i['o'] == 'phi' and role(f, i['i']) == ('arg', 1)]
            if not why and len(ph) == 1:
                left = number(ci_op(f, st, ph[0], to[1]), env)
                if left != num - a:
                    why = '%d bytes are left of %d after reading %d' % (left, num, a)
            elif not why:
                why = 'what is left is not tracked'
            if not why:
                t2 = total_after(f, st, T, o, to, env)
                if t2 != (tot + a) & 0xffffffff:
                    why = 'the total becomes %d after %d and %d bytes' % (t2, tot, a)
            if why:
                break
    except Top as t:
        why = 'cannot be decided: %s' % t
    ctx.ob('skip', 'WaveReader::skip', why is None, why or 'every step reads at least one and at most the remaining bytes into its area, counts them and ends with nothing left or a bad stream (%d states)' % n, wh)

def ci_op(f, st, phi, frm):
    op = next(x[0] for x in phi['a'] if x[1] == frm)
    return Seg(f).opv(st, op, phi['t'])

def total_after(f, st, obj, o, to, env):
    ph = [i for i in f.blocks[to[0]]['ins'] if i['o'] == 'phi' and role(f, i['i']) == ('field', o['total_read'])]
    if ph and not any(k[0] == obj and k[1] == o['total_read'] for k in st.mem):
        return number(ci_op(f, st, ph[0], to[1]), env) & 0xffffffff
    return number(st.load(('p', obj, o['total_read']), 4, 'i32', None), env)

def alloca_size(f, p):
    if p[0] == 'p' and p[1][0] == 'alloca':
        return f.ins[p[1][1]].get('asz')
    return None

# ------------------------------------------------------------ start
def start(ctx, prog, o):
    f = prog.one(r'^WaveReader::start\(')
    ctx.fn(f)
    T, wh = ('arg', 0), f.where(None)
    ext = 0
    try:
        ci = Seg(f, total=(T, o['total_read']), skipname='WaveReader::skip')
        res = ci.run()
        if ci.cut:
            raise Top('a loop of unknown length')
        for cs_, fmt, ch, rate, bits_ in ((16, 1, 1, 44100, 16), (18, 1, 2, 48000, 8), (40, 0xfffe, 2, 96000, 24), (17, 1, 3, 0x12345, 16), (16, 3, 1, 8000, 32)):
            vals = {'riff': 0x01020304, 'size': cs_, 'format': fmt, 'channels': ch, 'rate': rate, 'brate': 0x55667788, 'align': 0x1122, 'bits': bits_}
            raw = b'RIFF' + (0x01020304).to_bytes(4, 'little') + b'WAVEfmt ' + cs_.to_bytes(4, 'little') + (fmt & 0xffff).to_bytes(2, 'little') + ch.to_bytes(2, 'little') + rate.to_bytes(4, 'little') + (0x55667788).to_bytes(4, 'little') + (0x1122).to_bytes(2, 'little') + bits_.to_bytes(2, 'little')
            def env(nm):
                if nm[0] == 'in' and nm[1] < len(raw):
                    return raw[nm[1]]
                return None
            app = [(st, cs) for st, r, cs in res if feasible(cs, env)]
            why = None
            if len(app) != 1:
                why = '%d paths apply' % len(app)
            else:
                st, cs = app[0]
                ops = st.x.get('ops', [])
                kinds = [x[0] for x in ops]
                sk = [number(x[1], env) for x in ops if x[0] == 'skip']
                rd = [x[3] for x in ops if x[0] == 'read']
                wantskip = cs_ - 16 + ((cs_ - 16) & 1)
                g = lambda off, n=4: number(st.load(('p', T, off), n, 'i%d' % (8 * n), None), env, True)
                by = tdiv(bits_, 8)
                want = {'format': fmt, 'channels': ch, 'samplerate': rate, 'bits_per_sample': bits_, 'bytes_per_sample': by, 'byterate': ch * rate * by, 'blockalign': ch * by, 'size': 0x01020304 + 8, 'total_read': 36 + wantskip}
                if not kinds or kinds[0] != 'start' or kinds.count('start') != 1:
                    why = 'the stream is not started once, first: %s' % kinds
                elif set(kinds) - {'start', 'read', 'skip'}:
                    why = 'does %s' % (set(kinds) - {'start', 'read', 'skip'})
                elif sum(rd) != 36:
                    why = 'reads %s bytes' % rd
                elif any(k == 'skip' for k in kinds[:max(i for i, k in enumerate(kinds) if k == 'read')]):
                    why = 'skips before the format fields are read'
                elif sum(sk) != wantskip:
                    why = 'skips %s of a format chunk of %d bytes' % (sk, cs_)
                elif number(st.load(('p', T, o['needs_chunk']), 1, 'i8', None), env) != 1:
                    why = 'does not look for a chunk next'
                else:
                    for k, v in want.items():
                        if g(o[k]) & 0xffffffff != v & 0xffffffff:
                            why = '%s becomes %d instead of %d' % (k, g(o[k]), v)
                    if g(o['chunk_read'], 8) != 0:
                        why = 'bytes read from the chunk are not reset'
            ctx.ob('start', 'WaveReader::start format chunk of %d bytes' % cs_, why is None, why or 'fields, counters and position as specified', wh)
    except Top as t:
        ctx.ob('start', 'WaveReader::start', False, 'cannot be decided: %s' % t, wh)

# ------------------------------------------------------------ get_data
def spec(s):
    """one step of the walk: ('stop'/'end'/'skip'/'data', ...)"""
    full = s['buf'] * s['ch']
    if s['tot'] >= s['size'] or s['state'] >= 2 or s['read'] >= full:
        return dict(kind='end', stop=s['tot'] >= s['size'])
    d = dict(s)
    hdr = False
    if s['needs']:
        hdr = True
        d['tot'] += 8
        d['hs'] = s['new']
        if not s['isdata']:
            d['tot'] += s['new'] + (s['new'] & 1)
            return dict(kind='skip', after=d, skipped=s['new'] + (s['new'] & 1), hdr=True)
        d['needs'], d['cr'] = 0, 0
    room = (full - s['read']) * s['by']
    left = d['hs'] - d['cr']
    n = min(room, left)
    d['needs'] = int(left <= room)
    d['cr'] += n
    pad = (d['hs'] & 1) if d['needs'] else 0
    d['tot'] += n + pad
    d['read'] += n // s['by']
    return dict(kind='data', after=d, n=n, pad=pad, hdr=hdr)

def states():
    for (bits_, by), (buf, ch), needs in itertools.product(((16, 2), (8, 1)), ((4, 1), (2, 2), (1, 3)), (0, 1)):
        full = buf * ch
        for read in sorted({0, 1, full - 1, full}):
            for hs, cr, new in ([(10, 4, 99), (7, 0, 99), (5, 4, 3), (0x80000010, 0x80000002, 9), (0xfffffff0, 0x90000000, 8), (4, 4, 1), (8, 0, 9), (2, 0, 2)] if not needs else [(6, 6, v) for v in (0, 1, 2, 3, 4, 5, 7, 8, 9, 100, 0x80000001, 0xfffffff0)]):
                for isdata in ((0, 1) if needs else (1,)):
                    for tot, size, state in ((36, 0x7fffffff, 1), (36, 0x7fffffff, 0), (100, 100, 1), (44, 1000, 2), (44, 1000, 3), (101, 100, 1), (99, 100, 1)):
                        if (tot, size, state) != (36, 0x7fffffff, 1) and (bits_ == 8 or new not in (9, 99, 8)):
                            continue
                        yield dict(bits=bits_, by=by, buf=buf, ch=ch, needs=needs, read=read, hs=hs, cr=cr, new=new, isdata=isdata, tot=tot, size=size, state=state)

def data(ctx, prog, o, W):
    f = prog.one(r'^WaveReader::get_data\(')
    ctx.fn(f)
    wh = f.where(None)
    try:
        stops, sk, segs = segments(f, R, o)
    except Top as t:
        ctx.ob('walk', 'WaveReader::get_data', False, 'cannot be decided: %s' % t, wh)
        return
    entry = [x for x in segs if x[0] is None]
    segs = [x for x in segs if x[0] is not None]
    prologue(ctx, f, o, entry)
    bad, n, loops = {}, 0, {}
    for s in states():
        n += 1
        try:
            r = step(f, o, stops, sk, segs, s, loops)
        except Top as t:
            r = ('decidable', 'cannot be decided: %s' % t)
        except Unknown as t:
            r = ('decidable', 'cannot be decided: %s' % t)
        if r and r[0] not in bad:
            bad[r[0]] = '%s in state %s' % (r[1], {k: v for k, v in s.items()})
    for k, text in (('decidable', 'exactly one step applies'), ('end', 'ends at the end of the file, with a bad stream or a full buffer'), ('header', 'a chunk header is read exactly when one is needed'), ('foreign', 'other chunks are skipped with their padding'),
                    ('amount', 'reads what is left of the chunk or fits the buffer'), ('counters', 'counters follow the bytes consumed'), ('samples', 'every sample is converted to its place'), ('stop', 'stops the stream at the end of the file')):
        ctx.ob('walk', 'WaveReader::get_data ' + k, k not in bad, bad.get(k, '%s (%d states)' % (text, n)), wh)

def step(f, o, stops, sk, segs, s, loops):
    offs = {o['total_read']: (s['tot'], 4), o['size']: (s['size'], 4), o['chunk_read']: (s['cr'], 8), o['needs_chunk']: (s['needs'], 1), o['buffer_size']: (s['buf'], 4), o['channels']: (s['ch'], 4), o['bits_per_sample']: (s['bits'], 4),
            o['bytes_per_sample']: (s['by'], 4), o['head_size']: (s['hs'], 4), o['samplerate']: (44100, 4), o['format']: (1, 4), o['byterate']: (44100 * s['ch'] * s['by'], 4), o['blockalign']: (s['ch'] * s['by'], 4)}
    hid = b'data' if s['isdata'] else (b'LIST', b'fact', b'dat ', b'ata!', b'DATA', b'Data')[(s['new'] + s['read']) % 6]
    raw = hid + (s['new'] & 0xffffffff).to_bytes(4, 'little')
    nbytes = [None]
    def field(off):
        for k, (v, n) in offs.items():
            if k <= off < k + n:
                return (v >> (8 * (off - k))) & 255
    def tat(t):
        if t[0] == 'phi':
            return env(('phi', t[1]))
        if t[0] == 'size' and drop_version(t[1])[0] == 'alloca':
            return nbytes[0] // t[2] if isinstance(t[2], int) else None
        if t[0] == 'iter' and t[1] in sk:
            return max(0, ev(drop_version(f.loops[t[1]].count()), tat))
        if t[0] == 'ld':
            a = drop_version(t[1])
            if a[0] == 'alloca':
                return 1 << 40
            if P(a).get((), 0) == 8 and any(m and m[0][0] == 'alloca' for m in P(a)):
                return (1 << 40) + nbytes[0]
            b, off = base_off(a)
            if b == R:
                return field_value(offs, off)
        return None
    def env(nm):
        if nm[0] == 'in':
            return raw[nm[1]] if nm[1] < 8 else None
        if nm[0] == 'm' and nm[1] == R:
            return field(nm[2])
        if nm[0] == 'm' and nm[1] == ('str', R, o['head_id']):
            return b'data'[nm[2]] if nm[2] < 4 else None
        if nm[0] == 'm' and nm[1] == ('deref', R, o['stream']) and 8 <= nm[2] < 12:
            return (s['state'] >> (8 * (nm[2] - 8))) & 255
        if nm[0] == 'phi':
            r = role(f, nm[1])
            if r == ('const', 0):
                return s['read']
            if r is not None and r[0] == 'field':
                return field_value(offs, r[1])
        if nm[0] == 'lp':
            return ev(drop_version(f.lift(f.term(nm[1]))), tat)
        return None
    # follow trivial segments between cut points
    h = None
    for x in [h0 for h0 in stops]:
        if not any(t is not None and t[0] == x and s0 is not None and s0 != x and s0 in stops and x in f.loops[s0].blocks for s0, t, st, cs, r in segs):
            pass
    outer = [x for x in stops if not any(y != x and x in f.loops[y].blocks for y in stops)]
    if len(outer) != 1:
        raise Top('%d separate reading loops' % len(outer))
    cur, st, hops = outer[0], None, 0
    while True:
        ok = [x for x in segs if x[0] == cur and feasible(x[3], env)]
        if len(ok) != 1:
            return ('decidable', '%d steps apply' % len(ok))
        _, to, st, cs, r = ok[0]
        if to is not None and to[0] != cur and to[0] in stops and to[0] != outer[0] and not st.x.get('ops') and not any(k[0] == R for k in st.mem) and hops < 4:
            cur, hops = to[0], hops + 1
            continue
        break
    ops = st.x.get('ops', [])
    want = spec(s)
    ld = lambda off, n: number(st.load(('p', R, off), n, 'i%d' % (8 * n), None), env)
    stream_ops = [x for x in ops if x[0] not in ('call', 'loop')]
    stopcalls = [x for x in ops if x[0] == 'call' and 'WaveReader::stop(' in x[1]] + [x for x in ops if x[0] == 'stop']
    if want['kind'] == 'end':
        if to is not None:
            return ('end', 'goes on')
        if [x for x in stream_ops if x[0] != 'stop'] or any(x[0] == 'loop' for x in ops):
            return ('end', 'does %s' % [x[0] for x in ops])
        if (len(stopcalls) >= 1) != want['stop'] or len(stopcalls) > 1:
            return ('stop', 'the stream is %sstopped' % ('' if stopcalls else 'not '))
        return None
    if to is None:
        return ('end', 'ends')
    if stopcalls:
        return ('stop', 'the stream is stopped')
    rd = [x for x in stream_ops if x[0] == 'read']
    other = [x[0] for x in stream_ops if x[0] not in ('read', 'skip')]
    if other:
        return ('decidable', 'does %s' % other)
    amounts = [(x[0], x[3] if isinstance(x[3], int) else number(x[3], env, True), x) if x[0] == 'read' else ('skip', number(x[1], env), x) for x in stream_ops]
    if want['hdr']:
        if not amounts or amounts[0][:2] != ('read', 8):
            return ('header', 'no header is read')
        amounts = amounts[1:]
    a = want['after']
    if want['kind'] == 'skip':
        if any(x[0] == 'read' for x in amounts) or sum(x[1] for x in amounts) != want['skipped']:
            return ('foreign', 'skips %s of a chunk of %d bytes' % ([x[1] for x in amounts], s['new']))
        if any(x[0] == 'loop' for x in ops):
            return ('foreign', 'the bytes of another chunk are converted')
        nread = phi_after(f, st, to, env, s)
    else:
        reads = [x for x in amounts if x[0] == 'read' and x[1] != 0]
        if not want['hdr'] and reads and reads[0][1] == 8 and want['n'] != 8 and len(reads) > 1:
            return ('header', 'a header is read inside a chunk')
        if [x[1] for x in reads] != ([want['n']] if want['n'] else []):
            return ('amount', 'reads %s bytes instead of %d' % ([x[1] for x in reads], want['n']))
        sks = [x for x in amounts if x[0] == 'skip']
        if sum(x[1] for x in sks) != want['pad'] or (sks and reads and sks[0][1] and amounts.index(sks[0]) < amounts.index(reads[0])):
            return ('amount', 'skips %s bytes of padding instead of %d' % ([x[1] for x in sks], want['pad']))
        vec = [x for x in ops if x[0] == 'call' and ('::vector(' in x[1] or '::resize(' in x[1]) and len(x[2]) > 1 and x[2][1][0] == 'i']
        nbytes[0] = number(vec[-1][2][1], env) if vec else None
        if nbytes[0] is None or nbytes[0] < want['n']:
            return ('amount', 'reads %d bytes into an area of %s' % (want['n'], nbytes[0]))
        ls = [x[1] for x in ops if x[0] == 'loop']
        r = converted(f, ls, sk, tat, s, want, nbytes[0], loops)
        if r:
            return ('samples', r)
        nread = phi_after(f, st, to, env, s)
    if nread != a['read']:
        return ('samples' if want['kind'] == 'data' else 'foreign', 'the index becomes %s instead of %d' % (nread, a['read']))
    got = dict(tot=total_after(f, st, R, o, to, env), cr=ld(o['chunk_read'], 8), needs=ld(o['needs_chunk'], 1), hs=ld(o['head_size'], 4))
    if want['kind'] == 'skip':
        a = dict(a, cr=got['cr'])
    for k in got:
        if got[k] != a[k] & ((1 << 32) - 1 if k in ('tot', 'hs') else -1):
            return ('counters', '%s becomes %d instead of %d' % ({'tot': 'the total', 'cr': 'the count in the chunk', 'needs': 'needs_chunk', 'hs': 'the chunk size'}[k], got[k], a[k]))
    return None

def field_value(offs, off):
    return offs[off][0] if off in offs else None

def phi_after(f, st, to, env, s):
    ph = [i for i in f.blocks[to[0]]['ins'] if i['o'] == 'phi' and role(f, i['i']) == ('const', 0)]
    if not ph:
        return s['read']               # carried around unchanged
    if len(ph) != 1:
        raise Top('the index of the next sample is not tracked')
    v = ci_op(f, st, ph[0], to[1])
    if v[0] != 'i':
        raise Top('unknown index')
    return number(v, env)

def converted(f, ls, sk, tat, s, want, nbytes, loops):
    n = want['n'] // s['by']
    if not ls:
        return 'the bytes are not converted' if n else None
    if len(ls) != 1:
        return '%d loops convert' % len(ls)
    l = f.loops[ls[0]]
    c = max(0, ev(drop_version(l.count()), tat))
    if c != n:
        return '%d samples are converted instead of %d' % (c, n)
    mem = lambda k: (k * 73 + 29) & 255
    for i in range(min(n, 6)):
        env = {l.header: i}
        def at(t):
            if t[0] == 'iter' and t[1] == l.header:
                return i
            if t[0] == 'ld':
                try:
                    ad = ev(drop_version(t[1]), at)
                except Unknown:
                    ad = None
                if ad is not None and 1 << 40 <= ad < (1 << 40) + nbytes:
                    w = loadwidth(f, t)
                    return int.from_bytes(bytes(mem(ad - (1 << 40) + q) for q in range(w)), 'little')
                if ad is not None and 1 << 40 <= ad < 1 << 41:
                    raise Unknown('reads outside the bytes of the chunk')
                if drop_version(t[1])[0] == 'call' and f.ins[drop_version(t[1])[1]].get('d', '').startswith('operator new'):
                    return 1 << 50
            return tat(t)
        bs = [b for b in l.bodies() if all(is_control(y, l) or bool(ev(drop_version(y.t), at)) == bool(y.v) for y in b if y.kind == 'cond')]
        if len(bs) != 1:
            return '%d ways to convert a sample' % len(bs)
        sts = [e for e in bs[0] if e.kind == 'store']
        cal = [e for e in bs[0] if e.kind == 'call']
        if len(sts) != 1 or any(e.kind not in ('cond', 'store', 'call') for e in bs[0]):
            return 'one sample step writes %d values' % len(sts)
        v = drop_version(sts[0].val)
        if ev(drop_version(sts[0].addr), at) != (1 << 50) + 8 * (s['read'] + i):
            return 'sample %d goes to another place' % i
        if v[0] != 'call':
            return 'the value stored is %s' % tstr(v)
        e = [e for e in cal if e.ins['i'] == v[1]]
        if not e or e[0].name != ('int16_mf' if s['by'] == 2 else 'uchar_mf'):
            return 'converted by %s' % (e[0].name if e else '?')
        a = int(ev(drop_version(e[0].args[0]), at))
        M = (1 << s['bits']) - 1
        if a & M != int.from_bytes(bytes(mem(s['by'] * i + q) for q in range(s['by'])), 'little') & M:
            return 'sample %d is built from the wrong bytes' % i
    return None

def loadwidth(f, t):
    if len(t) > 2 and t[2] in f.ins:
        return f.ins[t[2]].get('ssz', 1)
    return 1

def prologue(ctx, f, o, entry):
    why = None
    for by, buf, ch in ((2, 4, 2), (1, 3, 1), (0, 4, 2), (-1, 2, 2)):
        offs = {o['bytes_per_sample']: by, o['buffer_size']: buf, o['channels']: ch, o['samplerate']: 44100}
        def env(nm):
            if nm[0] == 'm' and nm[1] == R:
                for k, v in offs.items():
                    if k <= nm[2] < k + 4:
                        return ((v & 0xffffffff) >> (8 * (nm[2] - k))) & 255
        try:
            ok = [x for x in entry if feasible(x[3], env)]
            if len(ok) != 1:
                why = '%d ways to begin' % len(ok)
                break
            _, to, st, cs, r = ok[0]
            ops = st.x.get('ops', [])
            vec = [x for x in ops if x[0] == 'call' and '::vector(' in x[1] and len(x[2]) > 1 and x[2][1][0] == 'i']
            stopped = [x for x in ops if x[0] == 'stop' or (x[0] == 'call' and 'WaveReader::stop(' in x[1])]
            rd = [x for x in ops if x[0] in ('read', 'skip', 'seek', 'write')]
            if len(vec) != 1 or number(vec[0][2][1], env) != buf * ch:
                why = 'the buffer does not hold the configured frames of every channel'
            elif rd:
                why = 'reads before the walk'
            elif (by <= 0) != bool(stopped):
                why = 'a stream whose samples have %d bytes is %sstopped' % (by, '' if stopped else 'not ')
            else:
                b = vec[0][2][0]
                nch = [k for k in st.mem if k[0] == b[1] and k[1] == (b[2] or 0) + 24]
                if not nch or number(st.load(('p', b[1], b[2] + 24), 4, 'i32', None), env) != ch:
                    why = 'the buffer does not get the channel count'
        except Top as t:
            why = 'cannot be decided: %s' % t
        if why:
            break
    ctx.ob('walk', 'WaveReader::get_data buffer', why is None, why or 'a buffer of the configured frames and channels; nothing is walked when samples have no bytes', f.where(None))
    rate = [e for b, e in f.all_events() if e.kind == 'store' and e.val[0] in ('sitofp', 'uitofp') and drop_version(e.val[1])[0] == 'ld' and base_off(drop_version(e.val[1])[1])[1] == o['samplerate']]
    ctx.ob('walk', 'WaveReader::get_data rate', bool(rate), 'the buffer gets the sample rate of the file', f.where(None))
