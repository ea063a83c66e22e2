"""E01 the chain timer converts sample positions to time."""
from fin import *
LEVEL = 'other'
EXPLANATION = ('Every public operation of the chain timer is judged symbolically on every path: accessors must return exactly the specified expression over the timer\'s fields and the arguments (frame duration = 10^9 / rate, time = whole frames times frame duration), '
               'mutators must store exactly the specified value in exactly one field, and no time is cut to 32 bits.')
ASSUMPTIONS = ['sample counts are non-negative and below 2^31']

def run(ctx):
    prog = ctx.program(['^wit_tm_', '^get_time\\('], transparent=['^ChainTimer::', r'chrono::time_point_cast<', r'chrono::duration_cast<', r'chrono::__duration_cast_impl', r'chrono::time_point<', r'chrono::duration<'])
    o = {k: member_via(prog, 'wit_tm_' + k) for k in ('sample', 'channels', 'npf')}
    A = [('arg', k) for k in range(3)]
    ld = lambda k: ('ld', add(A[0], I(o[k])))
    N = I(1000000000)
    acc = {'sample': ld('sample'), 'channels': ld('channels'), 'npf': ld('npf'), 'time': mul(ld('npf'), ('udiv', ld('sample'), ld('channels'))), 'time1': mul(A[1], ld('npf')),
           'time2': mul(('udiv', A[1], A[2]), ld('npf')), 'rate': ('udiv', N, ld('npf'))}
    for k, want in acc.items():
        f = prog.one('^wit_tm_%s$' % k)
        ctx.fn(f)
        for cs, v, items in cases(f):
            eff = [e for e in items if e.kind in ('store', 'copy', 'fill', 'call', 'vcall', 'icall')]
            ctx.ob('reads', k, canon(v) == want and not eff, 'returns %s%s' % (tstr(v), ', and changes something' if eff else ''), f.where(None))
    mut = {'set_sample': ('sample', A[1]), 'set_channels': ('channels', A[1]), 'set_npf': ('npf', A[1]), 'set_rate': ('npf', ('udiv', N, A[1])), 'inc': ('sample', add(ld('sample'), I(1))), 'add': ('sample', add(ld('sample'), A[1]))}
    for k, (fld, want) in mut.items():
        f = prog.one('^wit_tm_%s$' % k)
        ctx.fn(f)
        for items, ex in ret_paths(f):
            fi = {q: canon(v) for q, v in finals(f, items, A[0]).items()}
            ctx.ob('writes', k, fi == {o[fld]: want}, 'stores %s' % {n: tstr(v) for n, v in fi.items()}, f.where(None))
    f = prog.one('^wit_tm_reset$')
    for items, ex in ret_paths(f):
        fi = finals(f, items, A[0])
        r = [e for e in items if e.kind == 'call' and e.name == 'reset']
        ok = bool(r) or (fi.get(o['sample']) == I(0) and fi.get(o['channels']) == I(1))
        ctx.ob('writes', 'reset', ok, 'stores %s' % {n: tstr(v) for n, v in fi.items()}, f.where(None))
    for f in prog.fns.values():
        bad = narrowings(f, lambda t: not isconst(t) and not (t[0] == 'udiv' or t[0] == 'sdiv' or t[0] == 'div'))
        ctx.ob('full-width', f.dem, not bad, 'a 64-bit time is cut: %s' % tstr(bad[0][1]) if bad else 'no time is narrowed', f.where(bad[0][0]) if bad else f.where(None))
    g = prog.find(r'^get_time\(')
    ctx.need('timer operations', len(ctx.obs), 14)
    for f in g:
        ctx.fn(f)
        for cs, v, items in cases(f):
            clk = [e for e in items if e.kind == 'call']
            ok = len(clk) == 1 and 'steady_clock::now' in clk[0].full and canon(v) == f.term(clk[0].ins['i'])
            ctx.ob('clock', 'get_time', ok, 'returns %s of %s' % (tstr(v), [c.full[:60] for c in clk]), f.where(None))
