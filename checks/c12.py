"""C12 A setting reads back as it was set or constructed, and setting it changes no other setting."""
import os
from kern import *
from fin import unphi
LEVEL = 'other'
EXPLANATION = ('For every class with settings a set of witnesses is generated and compiled together with the library: set one setting and read another, read one alone, construct the class by every public constructor and read a setting. '
               'The normalised value that each witness returns must be the argument itself for the setting that was set (or the parameter the constructor takes for it) and otherwise exactly what reading the object, or a default constructed one, gives without it, for every value and every prior state. '
               'Shared pointers, buffers and sizes are covered likewise; conversions between derived settings belong to E01 and W04.')
ASSUMPTIONS = ['a neighbour does not hold a reference to the numbers inside the object']
D, N, L, S = 'double', 'int', 'long', 'std::size_t'
FT = 'dsp::consts::FilterType'

def st(name, ty, get=None, set=None):
    return (name, ty, get or 'o.get_%s()' % name, set or 'o.set_%s(v)' % name)

def field(name, ty):
    return (name, ty, 'o.' + name, 'o.%s = v' % name)

OSC = [st('frequency', D), st('phase', D)]
ENV = [st('start_value', D), st('stop_value', D), ('start_time', L, 'o.get_start_time()', 'o.set_start_time(v)'), ('stop_time', L, 'o.get_stop_time()', 'o.set_stop_time(v)')]
MOD = [('chain record', 'ChainInfo*', 'o.get_chain_info()', 'o.set_chain_info(v)'), ('forward link', 'BaseModule*', 'o.BaseModule::forward()', 'o.BaseModule::forward(v)'),
       ('rate', D, 'o.get_info()->sample_rate', None), ('channels', N, 'o.get_info()->channels', None), ('in size', N, 'o.get_info()->in_buffer', None), ('out size', N, 'o.get_info()->out_buffer', None), ('state', 'BaseModule::State', 'o.get_state()', None)]
FIL = [st('type', FT), st('start_freq', D), st('stop_freq', D)]
WAV = [st('format', N), st('channels', N), st('samplerate', N), st('byterate', N), st('blockalign', N), st('bits_per_sample', N), st('bytes_per_sample', N), st('size', N)]
WDER = {(a, b) for a in ('channels', 'samplerate', 'bits_per_sample', 'bytes_per_sample') for b in ('byterate', 'blockalign', 'bits_per_sample', 'bytes_per_sample') if a != b}
IIR = [st('frac_high', D), st('frac_low', D), st('sample_rate', N), st('type', FT)]
ADSR = [st('attack', L), st('decay', L), st('sustain', D), st('release', L)]

# class, settings, constructors: [argument types, {setting: index of the argument that sets it}], pairs judged elsewhere
CLASSES = [
    ('SourceModule', MOD, []),
    ('SineOscillator', OSC + MOD, [([D], {'frequency': 0}), ([D, D], {'frequency': 0, 'phase': 1})]),
    ('SquareOscillator', OSC, [([D], {'frequency': 0}), ([D, D], {'frequency': 0, 'phase': 1})]),
    ('SawtoothOscillator', OSC, [([D], {'frequency': 0}), ([D, D], {'frequency': 0, 'phase': 1})]),
    ('TriangleOscillator', OSC, [([D], {'frequency': 0}), ([D, D], {'frequency': 0, 'phase': 1})]),
    ('ModSineOscillator', [st('phase', D)], [([D, D], {'phase': 1})]),
    ('ModSquareOscillator', [st('phase', D)], [([D, D], {'phase': 1})]),
    ('ModSawtoothOscillator', [st('phase', D)], [([D, D], {'phase': 1})]),
    ('ModTriangleOscillator', [st('phase', D)], [([D, D], {'phase': 1})]),
    ('ConstantEnvelope', ENV, []), ('SetValue', ENV, []), ('LinearRamp', ENV, []), ('ExponentialRamp', ENV, []),
    ('DurationEnvelope', ENV + [st('duration', L), st('envelope', 'BaseEnvelope*')], []),
    ('ADSREnvelope', ENV + ADSR, [([L, L, D, L], {'attack': 0, 'decay': 1, 'sustain': 2, 'release': 3})]),
    ('ConstModule', [st('value', D)], [([D], {'value': 0})]),
    ('AmplitudeScale<>', [st('value', D)] + MOD, [([D], {'value': 0})]),
    ('AmplitudeAdd<>', [st('value', D)], [([D], {'value': 0})]),
    ('AmplitudeScale<ConstModule>', [st('value', D)], [([D], {'value': 0})]),
    ('SincFilter<>', FIL + [st('size', N)], []), ('BaseFilter<>', FIL, [([FT, D, D], {'type': 0, 'start_freq': 1, 'stop_freq': 2})]),
    ('PeriodSink', [('period', N, 'o.get_period()', 'o.set_period(v)')] + MOD[1:], []),
    ('BufferModule', [st('rbuffer', 'AudioBuffer*')], []),
    ('ChainTimer', [st('npf', L), st('channels', N), st('sample', N)], []),
    ('BaseWave', WAV, [], WDER),
    ('WaveReader', WAV + [st('stream', 'BaseMIStream*'), st('buffer_size', N)], [(['BaseMIStream*'], {'stream': 0})], WDER),
    ('WaveWriter', WAV + [st('stream', 'BaseMOStream*')], [(['BaseMOStream*'], {'stream': 0})], WDER),
    ('CharIStream', [st('state', 'CharIStream::mstate')], []), ('CharOStream', [st('state', 'CharOStream::mstate')], []),
    ('FIStream', [st('state', 'FIStream::mstate')], []), ('FOStream', [st('state', 'FOStream::mstate')], []),
    ('dsp::iir::SinglePole<double>', IIR, []),
    ('ModuleInfo', [field('sample_rate', D), field('in_buffer', N), field('out_buffer', N), field('channels', N)], []),
    ('AudioBuffer', [st('samplerate', D), ('channels', S, 'o.channels()', 'o.set_channels(v)')], [([S, N, D], {'channels': 1, 'samplerate': 2}), ([S, N], {'channels': 1})]),
    ('dsp::buff::StaticBuffer<double, 4>', [st('samplerate', D), ('channels', S, 'o.channels()', 'o.set_channels(v)')], []),
]
# what, arguments, what is done and read, what it must be
MORE = [
    ('module takes over all information it is given: ' + f, 'SourceModule &o, ModuleInfo &v', 'o.set_info(v); return o.get_info()->%s;' % f, 'return v.%s;' % f) for f in ('sample_rate', 'in_buffer', 'out_buffer', 'channels')
] + [
    ('information made from a chain: ' + f, 'void *p, ChainInfo &v', 'ModuleInfo &o = *new (p) ModuleInfo(v); return o.%s;' % f, 'return v.%s;' % g) for f, g in (('sample_rate', 'sample_rate'), ('in_buffer', 'buffer_size'), ('out_buffer', 'buffer_size'), ('channels', 'channels'))
] + [
    ('information taken from a chain: ' + f, 'ModuleInfo &o, ChainInfo &v', 'o.from_chain(v); return o.%s;' % f, 'return v.%s;' % g) for f, g in (('sample_rate', 'sample_rate'), ('in_buffer', 'buffer_size'), ('out_buffer', 'buffer_size'), ('channels', 'channels'))
] + [
    ('%s: phase moves by the amount given' % c, c + ' &o, double v', 'o.inc_phase(v); return o.get_phase();', 'return o.get_phase() + v;') for c in ('SineOscillator', 'ModSineOscillator')
] + [
    ('ChainTimer: sample moves by the amount given', 'ChainTimer &o, int v', 'o.add_sample(v); return o.get_sample();', 'return o.get_sample() + v;'),
    ('ChainTimer: sample moves by one', 'ChainTimer &o', 'o.inc_sample(); return o.get_sample();', 'return o.get_sample() + 1;'),
    ('filter of a high frequency in hertz', 'dsp::iir::SinglePole<double> &o, double v', 'o.set_freq_high(v); return o.get_frac_high();', 'return v / o.get_sample_rate();'),
    ('filter of a low frequency in hertz', 'dsp::iir::SinglePole<double> &o, double v', 'o.set_freq_low(v); return o.get_frac_low();', 'return v / o.get_sample_rate();'),
    ('filter read in hertz, high', 'dsp::iir::SinglePole<double> &o', 'return o.get_freq_high();', 'return o.get_frac_high() * o.get_sample_rate();'),
    ('filter read in hertz, low', 'dsp::iir::SinglePole<double> &o', 'return o.get_freq_low();', 'return o.get_frac_low() * o.get_sample_rate();'),
    ('filter coefficient a', 'dsp::iir::IIRFilter<double> &o, int k, double v', 'o.set_a(k, v); return o.get_a(k);', 'return v;'),
    ('filter coefficient b', 'dsp::iir::IIRFilter<double> &o, int k, double v', 'o.set_b(k, v); return o.get_b(k);', 'return v;'),
    ('created buffer: channels', 'int n, int c', 'return create_buffer(n, c).release()->channels();', 'return std::size_t(c);'),
    ('created buffer with rate: channels', 'int n, int c, double r', 'return create_buffer(n, c, r).release()->channels();', 'return std::size_t(c);'),
    ('created buffer with rate: rate', 'int n, int c, double r', 'return create_buffer(n, c, r).release()->get_samplerate();', 'return r;'),
] + [
    ('%s holds the object given' % c, '%s &o, %s *v' % (c, t), 'o.set_%s(v); return o.get_%s();' % (g, g), 'return v;') for c, t, g in (('WaveReader', 'BaseMIStream', 'stream'), ('WaveWriter', 'BaseMOStream', 'stream'), ('BufferModule', 'AudioBuffer', 'rbuffer'), ('DurationEnvelope', 'BaseEnvelope', 'envelope'))
]
INCS = ['amp_module', 'audio_buffer', 'base_module', 'chrono', 'envelope', 'filter_module', 'fund_oscillator', 'io/mstream', 'io/wav', 'meta_audio', 'sink_module', 'source_module', 'dsp/iir', 'utils', 'module_param']

def source():
    """witness text and [(kind, class, what, function, expected function or argument)]"""
    out = ['#include "%s.hpp"\n' % h for h in INCS] + ['#include <new>\nextern "C" {\n']
    want, n = [], [0]
    def fn(args, body):
        n[0] += 1
        out.append('auto wit_set_%d(%s) { %s }\n' % (n[0], args, body))
        return 'wit_set_%d' % n[0]
    for row in CLASSES:
        c, sets, ctors = row[:3]
        skip = row[3] if len(row) > 3 else set()
        alone = {s[0]: fn('%s &o' % c, 'return %s;' % s[2]) for s in sets}
        for s in sets:
            if not s[3]:
                continue
            for g in sets:
                if (s[0], g[0]) in skip:
                    continue
                f = fn('%s &o, %s v' % (c, s[1]), '%s; return %s;' % (s[3], g[2]))
                want.append(('set', c, s[0], g[0], f, 1 if s is g else alone[g[0]]))
        if ctors:
            fresh = {s[0]: fn('void *p', '%s &o = *new (p) %s; return %s;' % (c, c, s[2])) for s in sets}
        for tys, m in ctors:
            args = ', '.join('%s a%d' % (t, k) for k, t in enumerate(tys))
            for g in sets:
                f = fn('void *p, ' + args, '%s &o = *new (p) %s(%s); return %s;' % (c, c, ', '.join('a%d' % k for k in range(len(tys))), g[2]))
                want.append(('made', '%s(%s)' % (c, ', '.join(tys)), '', g[0], f, 1 + m[g[0]] if g[0] in m else fresh[g[0]]))
    for what, args, body, exp in MORE:
        want.append(('more', what, '', '', fn(args, body), fn(args, exp)))
    out.append('}\n')
    return ''.join(out), want

def value(f):
    """the one value a witness returns, or None"""
    vals = {drop_arg(known(items, settled(f, items, unphi(f, items, f.op(ex['a'][0]))))) for items, ex in ret_paths(f) if ex['a']}
    return vals.pop() if len(vals) == 1 else None

def known(items, v):
    """a constant that the path compared with an argument is that argument"""
    for x in items:
        if x.kind == 'cond' and x.t[0] in ('icmp', 'fcmp') and x.v == (x.t[1] in ('eq', 'oeq')) and x.t[1] in ('eq', 'ne', 'oeq', 'une'):
            for a, b in (x.t[2:4], x.t[3:1:-1]):
                if drop_arg(a)[0] == 'arg' and b == v and v[0] in ('i', 'f'):
                    return a
    return v

STD = re.compile(r'^(vector|basic_string|unique_ptr|basic_[io]?fstream|mutex|deque|array|condition_variable|thread)$')

def fresh(t):
    """inside an object that was just allocated"""
    b, off = base_off(t)
    return b is not None and b[0] == 'call' and 'operator new' in str(b)

def settled(f, items, t):
    """what a read after the constructor yields: the last value stored there; standard members construct only themselves"""
    if t[0] != 'ld' or len(t) < 3:
        return subst(t, lambda y: settled(f, items, y) if y is not t and y[0] == 'ld' and len(y) > 2 else None)
    v, n = ('ld', t[1]), f.ins[t[2]].get('ssz', 8)
    for x in items:
        if x.kind != 'cond' and x.kind != 'loop' and x.ins['i'] > t[2]:      # read before this happened
            break
        if x.kind == 'store':
            d = sub(x.addr, t[1])
            if fresh(x.addr):
                continue
            if d == I(0):
                v = x.val
            elif not isconst(d) or -x.size < d[1] < n:
                return t
        elif x.kind in ('fill', 'copy'):
            if fresh(x.addr):
                continue
            d = sub(x.addr, t[1])
            if not (isconst(d) and isconst(x.size)):
                return t
            if x.kind == 'copy' and d[1] <= 0 and d[1] + x.size[1] >= n:
                v = ('ld', sub(x.val, d))
            elif not (d[1] >= n or d[1] + x.size[1] <= 0):
                return t
        elif x.kind == 'call' and x.name == 'new':
            continue
        elif x.kind == 'call' and x.args:      # a standard member constructs itself; a part of the object behind the setting changes that part
            d = sub(x.args[0], t[1])
            if fresh(x.args[0]):
                continue
            if not isconst(d) or d[1] == 0 or not (d[1] > 0 or STD.match(x.name or '')):
                return t
        elif x.kind != 'cond':
            return t
    return v

def narrowed(f, exp):
    """a truncation on the way to the returned value (terms are mathematical and do not show it)"""
    todo, seen = [ex['a'][0] for items, ex in ret_paths(f) if ex['a']], set()
    todo += [x.ins['a'][0] for items, ex in ret_paths(f) for x in items if x.kind == 'store' and drop_arg(x.val) == ('arg', exp)]
    while todo:
        o = todo.pop()
        k = o[1] if o and o[0] == 'v' else None
        i = f.ins.get(k)
        if i is None or k in seen:
            continue
        seen.add(k)
        if i['o'] in ('trunc', 'fptrunc', 'fptosi', 'fptoui', 'shl', 'ashr', 'lshr', 'and'):
            return True
        if i['o'] != 'load':
            todo += [a for a in i.get('a', []) if isinstance(a, list)]
    return False

def drop_arg(t):
    return subst(t, lambda x: ('arg', x[1]) if x[0] == 'arg' else None)

def home(prog, f, c):
    """where the class or function of a witness is"""
    c = re.sub(r'[(:].*', '', c.replace('dsp::', 'dsp_')).replace('dsp_', 'dsp::').strip()
    s = prog.structs.get(norm(c)) or next((v for k, v in sorted(prog.structs.items()) if k.startswith(c.split('<')[0] + '<')), None)
    return '%s:%d' % (s['file'].split('/repo/')[-1], s['line']) if s else f.where(None)

def run(ctx):
    src, want = source()
    path = os.path.join(ctx.work, 'settings.cpp')
    open(path, 'w').write(src)
    prog = ctx.program(['^wit_set_'], wits=(path,), transparent=[r'^([A-Z]|dsp::)(.*[A-Za-z>])?::~?[A-Z][A-Za-z]*\('])
    n = {'set': 0, 'made': 0, 'more': 0}
    for kind, c, s, g, w, exp in want:
        f = prog.fns.get(w)
        if f is None:
            raise AnalysisError('no witness %s' % w)
        v = value(f)
        n[kind] += 1
        if isinstance(exp, int):
            ok = v == ('arg', exp) and not narrowed(f, exp)
            what = 'is the value given'
        else:
            x = value(prog.fns[exp])
            ok = v is not None and v == x
            what = 'is what was given' if kind == 'more' else 'stays as it was' if kind == 'set' else 'is the default'
        site = '%s: %s after setting %s' % (c, g, s) if kind == 'set' else c if kind == 'more' else '%s: %s' % (c, g)
        ctx.ob('reads-back' if isinstance(exp, int) or kind == 'more' else 'independent', site, ok, what if ok else 'the value read is not the one %s: %s' % ('given' if isinstance(exp, int) or kind == 'more' else 'it had', tstr(v) if v else 'it differs by path'), home(prog, f, c))
        ctx.fn(f)
    ctx.need('set and read', n['set'], 300)
    ctx.need('made and read', n['made'], 30)
