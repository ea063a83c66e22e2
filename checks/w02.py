"""W02 byte order helpers and sample format conversions."""
from evalt import *
import bits, w01
LEVEL = 'other'
EXPLANATION = ('Byte helpers: bit-provenance abstract interpretation of every helper for three iterator kinds; each result bit must be the specified input bit (little-endian). '
               'Sample conversions: the expression of every path is extracted and evaluated exactly; it must saturate outside [-1, 1], agree with the format formula over a grid of sample values, and the two directions of each integer format '
               'must be inverse for every integer of the format, decided exhaustively on the extracted expressions in IEEE double arithmetic.')
ASSUMPTIONS = ['samples are not NaN']

def half_away(x):
    x = Fraction(x)
    return math.floor(abs(x) + Fraction(1, 2)) * (1 if x >= 0 else -1)
def clamp(v):
    return max(Fraction(-1), min(Fraction(1), v))
TO = {'mf_int16': (16, lambda v: math.trunc(v * (32768 if v < 0 else 32767))), 'mf_char': (8, lambda v: math.trunc(v * (128 if v < 0 else 127))),
      'mf_uint16': (16, lambda v: half_away((v + 1) / 2 * 65535)), 'mf_uchar': (8, lambda v: half_away((v + 1) / 2 * 255))}
FROM = {'int16_mf': (-32768, 32767, lambda k: Fraction(k, 32768 if k < 0 else 32767)), 'char_mf': (-128, 127, lambda k: Fraction(k, 128 if k < 0 else 127)),
        'uint16_mf': (0, 65535, lambda k: Fraction(2 * k, 65535) - 1), 'uchar_mf': (0, 255, lambda k: Fraction(2 * k, 255) - 1)}

class Formula:
    """the value a straight conversion function returns, path by path"""
    def __init__(self, f):
        self.f, self.p = f, []
        for items, ex in ret_paths(f):
            own = {drop_version(x.addr) for x in items if x.kind == 'store' and base_off(x.addr)[0] is not None and base_off(x.addr)[0][0] == 'alloca'}
            bad = [x for x in items if x.kind not in ('cond', 'call') and not (x.kind == 'store' and drop_version(x.addr) in own)] + [x for x in items if x.kind == 'call' and x.name not in MATH]
            if bad:
                raise Unknown('the conversion does %s' % bad[0])
            res = straight(f, items, own)
            v = res(unphi(f, items, f.op(ex['a'][0])))
            self.p.append(([(res(c.t), c.v) for c in items if c.kind == 'cond'], v))
    def __call__(self, x):
        at = lambda t: x if t[0] == 'arg' else None
        for cs, v in self.p:
            if all(bool(ev(t, at)) == q for t, q in cs):
                return ev(v, at)
        raise Unknown('no path applies')

def widths(f, n):
    """conversions to integers narrower than n bits, and integer truncations below n bits"""
    for b in f.blocks.values():
        for i in b['ins']:
            if i['o'] in ('fptosi', 'fptoui', 'trunc') and re.fullmatch(r'i\d+', i['t']) and 1 < int(i['t'][1:]) < n:
                return i
            if i['o'] == 'fptrunc' or i.get('t') == 'float':
                return i
    return None

def run(ctx):
    helpers(ctx)
    names = list(TO) + list(FROM) + ['mf_float', 'mf_null']
    prog = ctx.program([r'^(%s)\(' % '|'.join(names)], wits=None)
    F = {}
    for nm in names:
        f = prog.one(r'^%s\(' % nm)
        ctx.fn(f)
        try:
            F[nm] = Formula(f)
        except (Unknown, AnalysisError) as u:
            ctx.ob('formula', nm, False, 'not a function of the sample: %s' % u, f.where(None))
    grid = sorted({Fraction(a, 16) for a in range(-16, 17)} | {Fraction(a, 997) for a in range(-997, 998, 83)} | {s * Fraction(a, b) for s in (1, -1) for a, b in ((1, 32767), (1, 32768), (1, 65535), (32766, 32767), (3, 65536), (127, 128), (1, 254), (1, 510))})
    out = [Fraction(-3, 2), Fraction(3, 2), Fraction(-1) - Fraction(1, 1 << 40), Fraction(1) + Fraction(1, 1 << 40), Fraction(40000), Fraction(-40000), Fraction(10) ** 30, -Fraction(10) ** 30]
    for nm, (w, spec) in TO.items():
        f = prog.one(r'^%s\(' % nm)
        if nm not in F:
            continue
        i = widths(f, w)
        ctx.ob('width', nm, i is None, 'the value passes through %s' % i['t'] if i else 'nothing narrower than %d bits' % w, f.where(i))
        for rule, vs in (('formula', grid), ('saturates', out)):
            bad = None
            for v in vs:
                try:
                    got = F[nm](v)
                except Unknown as u:
                    bad = 'depends on %s' % u
                    break
                if got != spec(clamp(v)):
                    bad = '%s becomes %s instead of %s' % (float(v), got, spec(clamp(v)))
                    break
            ctx.ob(rule, nm, bad is None, bad or '%d values agree' % len(vs), f.where(None))
    for nm, (lo, hi, spec) in FROM.items():
        f = prog.one(r'^%s\(' % nm)
        if nm not in F:
            continue
        i = widths(f, 64)
        ctx.ob('width', nm, i is None, 'the value passes through %s' % i['t'] if i else 'computed in double', f.where(i))
        bad = None
        for k in sorted({lo, lo + 1, -1, 0, 1, hi - 1, hi} & set(range(lo, hi + 1)) | set(range(lo, hi + 1, (hi - lo) // 60 + 1))):
            try:
                got = F[nm](Fraction(k))
            except Unknown as u:
                bad = 'depends on %s' % u
                break
            if not same(got, spec(k)):
                bad = '%d becomes %s instead of %s' % (k, float(got), float(spec(k)))
                break
        ctx.ob('formula', nm, bad is None, bad or 'all values agree', f.where(None))
        back = 'mf_' + nm[:-3]
        if back not in F:
            continue
        bad = None
        for k in range(lo, hi + 1):
            try:
                x = F[nm](float(k))
                r = F[back](float(x))
            except Unknown as u:
                bad = 'depends on %s' % u
                break
            if r != k:
                bad = '%d comes back as %d' % (k, r)
                break
        ctx.ob('round-trip', nm[:-3], bad is None, bad or 'all %d values come back unchanged' % (hi - lo + 1), f.where(None))
    for nm in ('mf_float', 'mf_null'):
        f = prog.one(r'^%s\(' % nm)
        if nm in F:
            ok = all(v in (('arg', 0), ('fptrunc', ('arg', 0))) and (nm == 'mf_float' or v == ('arg', 0)) for _, v in F[nm].p)
            ctx.ob('formula', nm, ok, 'the sample itself' if ok else 'the sample is changed', f.where(None))
    ctx.need('conversions', len(F), 8)

def helpers(ctx):
    prog = ctx.program([r'^wit_(char|it|u|int16|int32|uint32)_'], wits=('wav.cpp',), purevcalls=False)
    n = 0
    for f in prog.fns.values():
        m = re.match(r'^wit_(char|it|u)_(u?int(16|32))$', f.name)
        m2 = re.match(r'^wit_(u?int(16|32))_(char|it|u)$', f.name)
        if not m and not m2:
            continue
        n += 1
        ctx.fn(f)
        site = ('char_' + m.group(2) if m else m2.group(1) + '_char') + ' (%s)' % {'char': 'pointer', 'it': 'vector iterator', 'u': 'unsigned pointer'}[m.group(1) if m else m2.group(3)]
        wh = next((f.where(i) for b in f.blocks.values() for i in b['ins'] if i.get('l') and 'audio_buffer' in str(i['l'][0])), f.where(None))
        w = int((m or m2).group(3) if m else m2.group(2))
        try:
            sts, vals = w01.states(f)
        except bits.Top as t:
            ctx.ob('bytes', site, False, 'the bytes do not follow from the value: %s' % t, wh)
            continue
        for st, v in zip(sts, vals):
            d = 'calls something' if st.x.get('ops') else None
            if m:
                want = [('raw', tuple((('m', ('arg', 0), k), q) for q in range(8))) for k in range(w // 8)]
                got = [('raw', v[1][8 * k:8 * k + 8]) for k in range(w // 8)] if v and v[0] == 'i' and len(v[1]) == w else None
                d = d or ('the input is changed' if [k for k in st.mem if k[0] == ('arg', 0)] else None) or w01.compare(got, want)
            else:
                want = [('raw', tuple((('arg', 0), 8 * k + q) for q in range(8))) for k in range(w // 8)]
                outside = [k for k in st.mem if k[0] == ('arg', 1) and not 0 <= k[1] < w // 8]
                d = d or ('writes outside its bytes' if outside else None) or w01.compare([st.byte(('arg', 1), k) for k in range(w // 8)], want)
            ctx.ob('bytes', site, d is None, d or 'little-endian, every bit in place', wh)
    ctx.need('byte helpers', n, 18)
