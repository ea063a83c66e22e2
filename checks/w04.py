"""W04 the derived quantities of a wave format follow every change."""
from evalt import *
import itertools
LEVEL = 'other'
EXPLANATION = ('For every setter of the wave format all paths are summarised; the value stored in each field is evaluated exactly over a grid of field values and arguments (loads after stores resolved) and compared with the specification: '
               'the set field holds the argument, byte rate = channels * sample rate * bytes per sample, block align = channels * bytes per sample, bits and bytes agree, and every other field is unchanged. Accessors return the stored field and write nothing.')
ASSUMPTIONS = ['products of the fields fit in an int']
NAMES = ['format', 'channels', 'samplerate', 'byterate', 'blockalign', 'bits_per_sample', 'bytes_per_sample', 'size']

def spec(n, st, v):
    st = dict(st)
    st[n] = v
    if n == 'bits_per_sample':
        st['bytes_per_sample'] = tdiv(v, 8)
    if n == 'bytes_per_sample':
        st['bits_per_sample'] = v * 8
    if n in ('channels', 'samplerate', 'bits_per_sample', 'bytes_per_sample'):
        st['byterate'] = st['channels'] * st['samplerate'] * st['bytes_per_sample']
    if n in ('channels', 'bits_per_sample', 'bytes_per_sample'):
        st['blockalign'] = st['channels'] * st['bytes_per_sample']
    return st

def run(ctx):
    prog = ctx.program([r'^wit_bw_'], wits=('wav.cpp',), transparent=['^BaseWave::'])
    A = ('arg', 0)
    off = {n: member_via(prog, 'wit_bw_get_' + n) for n in NAMES}
    ctx.ob('fields', 'accessors', len(set(off.values())) == len(NAMES), 'fields %s' % off, '')
    for n in NAMES:
        f = prog.one('^wit_bw_get_%s$' % n)
        ctx.fn(f)
        for items, ex in ret_paths(f):
            bad = [e for e in walk_events(items) if e.kind in ('store', 'fill', 'copy', 'call', 'vcall')]
            ctx.ob('reads', n, not bad, 'accessor only reads', f.where(None))
    for n in NAMES:
        f = prog.one('^wit_bw_set_%s$' % n)
        ctx.fn(f)
        cells = {add(A, I(o)) for o in off.values()}
        why = None
        try:
            paths = []
            for items, ex in ret_paths(f):
                bad = [x for x in items if x.kind not in ('cond', 'store')]
                if bad:
                    raise Unknown('the setter does %s' % bad[0])
                res = straight(f, items, cells)
                fi = {o: res(v) for o, v in finals(f, items, A).items()}
                nst = sum(1 for x in items if x.kind == 'store')
                inside = sum(1 for x in items if x.kind == 'store' and drop_version(x.addr) in cells)
                if nst != inside:
                    raise Unknown('the setter writes something that is no field')
                paths.append(([(res(c.t), c.v) for c in items if c.kind == 'cond'], fi))
            for old in ((1, 2, 44100, 176400, 4, 16, 2, 0), (3, 5, 7, 11, 13, 8, 1, 17), (1, 1, 48000, 5, 9, 24, 3, 1000), (1, 3, 96000, 0, 0, 0, 0, 44)):
                st = dict(zip(NAMES, old))
                for v in (0, 1, 2, 3, 7, 8, 12, 16, 24, 32, 40, 44100, 96000):
                    def at(t):
                        if t == ('arg', 1):
                            return v
                        if t[0] == 'ld':
                            for k, o in off.items():
                                if drop_version(t[1]) == add(A, I(o)):
                                    return st[k]
                        return None
                    fi = next((g for cs, g in paths if all(bool(ev(c, at)) == q for c, q in cs)), None)
                    if fi is None:
                        raise Unknown('no path applies')
                    got = {k: ev(fi[off[k]], at) if off[k] in fi else st[k] for k in NAMES}
                    want = spec(n, st, v)
                    if got != want and why is None:
                        k = next(k for k in NAMES if got[k] != want[k])
                        why = 'after setting %s to %d, %s is %s instead of %s' % (n, v, k, got[k], want[k])
        except Unknown as u:
            why = str(u)
        ctx.ob('derived', n, why is None, why or 'all fields as specified on %d combinations' % 52, f.where(None))
    f = prog.one('^wit_bw_ctor$')
    ctx.fn(f)
    for items, ex in ret_paths(f):
        fi = {}
        for x in items:
            b, o = base_off(drop_version(x.addr)) if x.kind in ('store', 'fill') else (None, None)
            if x.kind == 'fill' and sub(drop_version(x.addr), A)[0] == 'i' and isconst(x.size):
                o = sub(drop_version(x.addr), A)[1]
                for k in range(o, o + x.size[1], 4):
                    fi[k] = 0 if x.val == I(0) else None
            elif x.kind == 'store':
                d = sub(drop_version(x.addr), A)
                if isconst(d) and isconst(x.val):
                    n8 = x.val[1]
                    fi[d[1]] = n8 & 0xffffffff
                    if n8 >> 32:
                        fi[d[1] + 4] = n8 >> 32
        got = {k: fi.get(o, 0) for k, o in off.items()}
        ok = got['channels'] * got['samplerate'] * got['bytes_per_sample'] == got['byterate'] and got['channels'] * got['bytes_per_sample'] == got['blockalign'] and got['bits_per_sample'] == 8 * got['bytes_per_sample']
        ctx.ob('default', 'BaseWave', ok, 'a new format is %s' % got, f.where(None))
    ctx.need('setters', len(NAMES), 8)
