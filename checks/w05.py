"""W05 the wave writer produces a well-formed file."""
from evalt import *
import bits, w01
from bits import value, linear, Top, StreamInterp
LEVEL = 'other'
EXPLANATION = ('start(): bit-provenance abstract interpretation; the concatenated writes must be exactly the 44 bytes of a standard wave header, each bit from the constant or the writer field, and the size becomes 44. '
               'stop(): for every path the condition on the size is decided over a grid, the seeks and writes are replayed on an abstract file: the RIFF size at byte 4 must be the linear form size - 8 and the data size at byte 40 size - 44, all 32 bits, and the stream is stopped once, last. '
               'write_data(): the loop summaries are evaluated for several buffer sizes: the bytes written must be the little-endian 16 bit (or 8 bit unsigned) conversion of every sample in buffer order, and the size grows by exactly the bytes written.')
ASSUMPTIONS = ['the writer was started before it is stopped', 'the stream behind the writer stores what it is given at its position']

class Cmp(StreamInterp):
    """also remembers the operands of comparisons"""
    def __init__(self, f):
        super().__init__(f)
        self.cmps = {}
    def step(self, st, i):
        if i['o'] == 'icmp':
            self.cmps[i['i']] = (i['p'], self.opv(st, i['a'][0]), self.opv(st, i['a'][1]))
        return super().step(st, i)

def le_value(bs, env):
    """numeric value of abstract bytes for named inputs"""
    out = []
    for b in bs:
        if b is None or b[0] != 'raw':
            raise Unknown('unknown byte')
        n = 0
        for k, x in enumerate(b[1]):
            if x is None:
                raise Unknown('unknown bit')
            n |= (x if x in (0, 1) else env(x)) << k
        out.append(n)
    return out

def bitenv(size, off):
    def val(nm, w):
        if isinstance(nm, tuple) and nm[0] == 'lin':
            return sum((c if k == 1 else c * val(k, nm[1])) for k, c in nm[2])
        if isinstance(nm, tuple) and nm[0] == 'm' and nm[1] == ('arg', 0):
            o = nm[2]
            if off <= o < off + 4:
                return (size & 0xffffffff) >> (8 * (o - off))
        raise Unknown('depends on %s' % (nm,))
    return lambda x: (val(x[0], 32) >> x[1]) & 1

def holds(ci, conds, size, off):
    for br, c, v in conds:
        nm = br['a'][0]
        q = ci.cmps.get(nm[1]) if nm[0] == 'v' else None
        if q is None:
            raise Unknown('a condition is no comparison')
        p, x, y = q
        def g(z):
            l = linear(z) if z[0] == 'i' else None
            if l is None:
                raise Unknown('a condition on something else than the size')
            t = 0
            for k, co in l.items():
                if k == 1:
                    t += co
                elif k == ('m', ('arg', 0), off, 32):
                    t += co * size
                else:
                    raise Unknown('a condition on something else than the size')
            t &= 0xffffffff
            return t - (1 << 32) if p[0] == 's' and t >> 31 else t
        if bool(CMP[p if p in CMP else {'sgt': 'sgt'}.get(p, p)](g(x), g(y))) != bool(v):
            return False
    return True

def run(ctx):
    prog = ctx.program([r'^WaveWriter::(start|stop|write_data)\(', '^wit_bw_get_'], wits=('wav.cpp',), purevcalls=False, transparent=w01.TR + ['^BaseWave::'], opaque=['^mf_'], pure=['^mf_'])
    off = {n: member_via(prog, 'wit_bw_get_' + n) for n in ('format', 'channels', 'samplerate', 'byterate', 'blockalign', 'bits_per_sample', 'bytes_per_sample', 'size')}
    stream = prog.off('WaveWriter', 'stream')
    start(ctx, prog, off, stream)
    stop(ctx, prog, off, stream)
    data(ctx, prog, off, stream)

def start(ctx, prog, off, stream):
    f = prog.one(r'^WaveWriter::start\(')
    ctx.fn(f)
    A = ('arg', 0)
    want = w01.text('RIFF') + w01.const(0, 4) + w01.text('WAVE') + w01.text('fmt ') + w01.const(16, 4)
    for m, n in (('format', 2), ('channels', 2), ('samplerate', 4), ('byterate', 4), ('blockalign', 2), ('bits_per_sample', 2)):
        want += w01.le(A, off[m], n)
    want += w01.text('data') + w01.const(0, 4)
    try:
        sts, _ = w01.states(f)
    except Top as t:
        ctx.ob('header', 'WaveWriter::start', False, 'the header does not follow from the fields: %s' % t, f.where(None))
        return
    for st in sts:
        other = [x for x in st.x.get('ops', []) if x[0] != 'write']
        d = 'does something else: %s %s' % (other[0][0], other[0][1]) if other else w01.compare(w01.written(st), want)
        ctx.ob('header', 'WaveWriter::start', d is None, d or '44 bytes, every bit as specified', f.where(None))
        sz = [st.byte(A, off['size'] + k) for k in range(4)]
        ctx.ob('size', 'WaveWriter::start', w01.compare(sz, w01.const(44, 4)) is None, 'the size is that of the header', f.where(None))
        ch = sorted({k[1] for k in st.mem if k[0] == A} - {off['size'] + k for k in range(4)})
        ctx.ob('unchanged', 'WaveWriter::start', not ch, 'also changes offset %s' % ch if ch else 'only the size changes', f.where(None))

def stop(ctx, prog, off, stream):
    f = prog.one(r'^WaveWriter::stop\(')
    ctx.fn(f)
    wh = f.where(None)
    ci = Cmp(f)
    try:
        res = ci.run()
        if ci.cut:
            raise Top('a loop of unknown length')
    except Top as t:
        ctx.ob('sizes', 'WaveWriter::stop', False, 'cannot be replayed: %s' % t, wh)
        return
    for size in (0, 44, 45, 46, 48, 100, 299, 300, 65580, 70000, (1 << 24) + 7, (1 << 31) - 1):
        why = None
        try:
            ps = [st for st, r, cs in res if holds(ci, cs, size, off['size'])]
            if len(ps) != 1:
                raise Unknown('%d paths apply' % len(ps))
            st = ps[0]
            pos, patch, stops = None, {}, 0
            env = bitenv(size, off['size'])
            for o in st.x.get('ops', []):
                if stops:
                    raise Unknown('the stream is used after it is stopped')
                if o[0] == 'seek':
                    pos = value(o[3]) if o[3] and o[3][0] == 'i' else None
                elif o[0] == 'write':
                    if pos is None or o[1] is None:
                        raise Unknown('a write at an unknown position')
                    for b in le_value(o[1], env):
                        patch[pos] = b
                        pos += 1
                elif o[0] == 'stop' and o[2] == ('p', ('deref', ('arg', 0), stream), 0):
                    stops += 1
                else:
                    raise Unknown('%s is called' % (o[1] or o[0]))
            want = {}
            if size >= 44:
                for k in range(4):
                    want[4 + k] = ((size - 8) >> (8 * k)) & 255
                    want[40 + k] = ((size - 44) >> (8 * k)) & 255
            if stops != 1:
                why = 'the stream is stopped %d times' % stops
            elif patch != want:
                why = 'with size %d the bytes %s are patched instead of %s' % (size, patch, want)
            ch = [k for k in st.mem if k[0] == ('arg', 0)]
            if ch:
                why = why or 'changes the writer'
        except Unknown as u:
            why = str(u)
        ctx.ob('sizes', 'WaveWriter::stop size %d' % size, why is None, why or 'sizes patched at 4 and 40, then stopped', wh)

SB, VB = 1 << 50, 1 << 60
def conv(name, i):
    h = (i * 2654435761 + 40503 * {'mf_int16': 3, 'mf_uchar': 5, 'mf_char': 7}.get(name, 9) + 12345) & 0xffffffff
    h = (h ^ (h >> 13)) * 40961 + 91 & 0xffff
    return (h - 65536 if h & 0x8000 else h) if name == 'mf_int16' else h & 255 if name in ('mf_uchar', 'mf_char') else h

class Mach:
    """evaluates a path summary for given numbers: memory bytes by address, vectors, the bytes given to the stream"""
    def __init__(self, f, N, fields, stream):
        self.f, self.N, self.fields, self.stream = f, N, fields, stream
        self.mem, self.vec, self.env, self.calls, self.out, self.upd = {}, {}, {}, {}, [], {}
        self.count = 0
    def at(self, t):
        k = t[0]
        if k == 'iter' and t[1] in self.env:
            return self.env[t[1]]
        if k == 'call' and t[1] in self.calls:
            return self.calls[t[1]]
        if k == 'alloca':
            return (1 << 40) + (t[1] << 20)
        if k == 'arg' and t[1] == 1:
            return 1 << 45
        if k == 'arg' and t[1] == 0:
            return 0
        if k == 'size' and drop_version(t[1]) == ('ld', ('arg', 1)):
            return self.N
        if k == 'ld':
            a = drop_version(t[1])
            if a == ('arg', 1):
                return 1 << 46
            if a == ('ld', ('arg', 1)):
                return SB
            if a == add(('ld', ('arg', 1)), I(8)):
                return SB + 8 * self.N
            b, o = base_off(a)
            if b is not None and self.f.is_self(b):
                if o in self.fields:
                    return self.fields[o]
                if o == self.stream:
                    return 1 << 47
            n = ev(a, self.at)
            if n in self.vec:
                return VB + (n << 4)
            if n - 8 in self.vec:
                return VB + ((n - 8) << 4) + self.vec[n - 8]
            raise Unknown('reads %s' % tstr(t))
        return None
    def val(self, t):
        return ev(drop_version(t), self.at)
    def put(self, a, v, n):
        for k in range(n):
            self.mem[a + k] = (v >> (8 * k)) & 255
    def run(self, items):
        for x in items:
            self.count += 1
            if self.count > 20000:
                raise Unknown('too long')
            if x.kind == 'cond':
                if bool(self.val(x.t)) != bool(x.v):
                    raise Unknown('path does not apply')
            elif x.kind == 'loop':
                n = max(0, self.val(x.loop.count())) if x.loop.count() is not None else None
                if n is None or len(x.loop.exits) != 1:
                    raise Unknown('uncounted loop')
                for i in range(n):
                    self.env[x.loop.header] = i
                    bs = [b for b in x.loop.bodies() if all(is_control(y, x.loop) or bool(self.val(y.t)) == bool(y.v) for y in b if y.kind == 'cond')]
                    if len(bs) != 1:
                        raise Unknown('%d iteration paths apply' % len(bs))
                    self.run([y for y in bs[0] if y.kind != 'cond'])
                self.env.pop(x.loop.header, None)
            elif x.kind == 'store':
                b, o = base_off(drop_version(x.addr))
                if b is not None and self.f.is_self(b):
                    self.upd[o] = self.val(x.val)
                    continue
                self.put(self.val(x.addr), int(self.val(x.val)), x.ins.get('ssz', 8))
            elif x.kind in ('call', 'vcall'):
                self.call(x)
            elif x.kind == 'fill':
                for k in range(self.val(x.size)):
                    self.mem[self.val(x.addr) + k] = self.val(x.val) & 255
            else:
                raise Unknown('does %s' % x)
    def call(self, x):
        nm = x.name
        if nm in ('mf_int16', 'mf_uchar', 'mf_char', 'mf_uint16'):
            t = drop_version(x.args[0])
            if t[0] != 'ld':
                raise Unknown('converts %s' % tstr(t))
            a = ev(t[1], self.at) - SB
            if a % 8 or not 0 <= a < 8 * self.N:
                raise Unknown('converts something that is no sample of the buffer')
            self.calls[x.ins['i']] = conv(nm, a // 8)
        elif x.kind == 'vcall' and nm == 'write':
            if self.val(x.obj if x.obj is not None else x.args[0]) != 1 << 47:
                raise Unknown('writes to another stream')
            p, n = self.val(x.args[-2]), self.val(x.args[-1])
            for k in range(n):
                inside = any(VB + (o << 4) <= p + k < VB + (o << 4) + s for o, s in self.vec.items())
                self.out.append(self.mem.get(p + k, 0) if inside or p < VB else None)
        elif nm == 'vector':
            self.vec[self.val(x.args[0])] = self.val(x.args[1]) if len(x.args) >= 3 else 0
        elif nm == 'resize':
            self.vec[self.val(x.args[0])] = self.val(x.args[1])
        elif nm == 'clear':
            self.vec[self.val(x.args[0])] = 0
        elif nm in ('push_back', 'emplace_back'):
            o = self.val(x.args[0])
            self.mem[VB + (o << 4) + self.vec[o]] = self.mem.get(self.val(x.args[1]))
            self.vec[o] += 1
        elif nm in ('reserve', '~vector', 'allocator', '~allocator', 'operator delete', 'delete', '~Buffer', 'data', 'size') or nm.startswith('~'):
            return
        else:
            raise Unknown('calls %s' % x.full[:80])

def data(ctx, prog, off, stream):
    f = prog.one(r'^WaveWriter::write_data\(')
    ctx.fn(f)
    paths = ret_paths(f)
    for bits_, byts in ((16, 2), (8, 1)):
        for N in (0, 1, 2, 3, 7):
            why, S0 = 'no path applies', 1234
            fields = {off['bits_per_sample']: bits_, off['bytes_per_sample']: byts, off['size']: S0, off['channels']: 3, off['blockalign']: 3 * byts, off['samplerate']: 44100, off['byterate']: 132300 * byts, off['format']: 1}
            for items, ex in paths:
                m = Mach(f, N, fields, stream)
                try:
                    m.run(items)
                except Unknown as u:
                    if str(u) != 'path does not apply':
                        why = str(u)
                    continue
                want = [(conv('mf_int16' if bits_ == 16 else 'mf_uchar', i) >> (8 * k)) & 255 for i in range(N) for k in range(byts)]
                if m.out != want:
                    d = next((k for k, (a, b) in enumerate(zip(m.out, want)) if a != b), min(len(m.out), len(want)))
                    why = '%d bytes written instead of %d, first difference at byte %d' % (len(m.out), len(want), d)
                elif m.upd.get(off['size']) != S0 + len(want) and want:
                    why = 'the size becomes %s + %s for %d bytes' % (S0, m.upd.get(off['size'], S0) - S0, len(want))
                elif set(m.upd) - {off['size']}:
                    why = 'changes other fields'
                else:
                    why = None
                break
            ctx.ob('data', 'WaveWriter::write_data %d bit, %d samples' % (bits_, N), why is None, why or 'all samples in order', f.where(None))
