"""C04 chain information sync: configuration reaches every module of the chain, each counted once."""
from chainsim import *
LEVEL = 'other'
EXPLANATION = ('For every module class: (1) every path of the recursive sync entry point makes exactly one own sync followed by exactly one recursive sync per upstream neighbour (static chains link the neighbour first); '
               '(2) every path of the own sync copies all 24 bytes of the forward module\'s configuration, adopts the forward module\'s chain record and counts the module once in it; '
               '(3) sinks take every field of their configuration from the matching field of their own chain record; (4) every sink restarts the module count of its chain record when a sync begins. '
               'Effects are the stores and copies left in the normalised body of the final overrider, field offsets come from debug information and public accessors.')
EXPLANATION += ' Code whose form these rules cannot see is followed instead by abstract interpretation over abstract neighbour modules (up to 65 inputs, every field a symbol, branches on unknown values refused), where the same effects must be found.'
ASSUMPTIONS = ['the forward link is set by linking (C08)']

def region(prog):
    info = member_via(prog, 'wit_get_info')
    return info, prog.structs['ModuleInfo']['size']

def final_values(f, items, base_is, lo, hi):
    """byte -> what was last written to it on the path: (kind, value term, byte of the value, size, event)"""
    out = {}
    for e in items:
        if e.kind == 'store' or e.kind == 'copy' and isconst(e.size):
            b, o = base_off(drop_version(e.addr))
            if b is not None and base_is(b):
                n = e.size if e.kind == 'store' else e.size[1]
                for k in range(n):
                    if lo <= o + k < hi:
                        out[o + k] = (e.kind, drop_version(e.val), k, n, e)
    return out

def covers(vals, lo, hi, src_of):
    """the bytes of [lo,hi) whose last value is not the one at src_of(offset)"""
    need = set(range(lo, hi))
    for x, (kind, v, k, n, e) in vals.items():
        if kind == 'copy' and src_of(v, x - k, None) or kind == 'store' and v[0] == 'ld' and src_of(v[1], x - k, n):
            need.discard(x)
    return need

def run(ctx):
    prog = ctx.program([r'::(meta_info_sync|info_sync|forward)\(', '^wit_'])
    slots = base_vt(prog)
    info, isz = region(prog)
    chain = member_via(prog, 'wit_get_chain_info')
    fwd = member_via(prog, 'wit_base_forward')
    num = prog.off('ChainInfo', 'module_num')
    ML, CL = prog.layout('ModuleInfo'), prog.layout('ChainInfo')
    n1 = n2 = n3 = 0
    for c in classes(prog):
        m = mangled_overrider(prog, c, slots, 'meta_info_sync')
        if m in (None, '__cxa_pure_virtual'):
            continue
        f = overrider(prog, c, slots, 'meta_info_sync')
        ctx.fn(f)
        n1 += 1
        ok, det, wh = either(judge_meta(prog, c, f), lambda: propagates(prog, c, f, slots))
        ctx.ob('sync-propagates', c.name + '::meta_info_sync', ok, det, wh)
        f = overrider(prog, c, slots, 'info_sync')
        if f is None:
            continue
        ctx.fn(f)
        sink = any(b.startswith('SinkModule<') for b in c.bases())
        if sink:
            ok, det, wh = either(judge_restart(prog, f, chain, CL), lambda: sink_sync(prog, c, f, slots, False))
            ctx.ob('restarts-count', c.name + '::info_sync', ok, det, wh)
        sink = any(b.startswith('SinkModule<') for b in c.bases())
        if sink and fn_class(f).startswith('SinkModule<'):
            n3 += 1
            ok, det, wh = either(judge_sink(prog, f, info, chain, ML, CL), lambda: sink_sync(prog, c, f, slots))
            ctx.ob('sink-config', c.name + '::info_sync', ok, det, wh)
        elif sink:
            continue            # hardware sinks take their configuration from the device (W08)
        else:
            n2 += 1
            ok, det, wh = either(judge_own(prog, f, info, isz, chain, fwd, num), lambda: own_sync(prog, c, f, slots))
            ctx.ob('adopts-forward', c.name + '::info_sync', ok, det, wh)
    ctx.need('recursive sync overriders', n1, 45)
    ctx.need('own sync overriders', n2, 35)
    ctx.need('sink sync overriders', n3, 4)

def judge_meta(prog, c, f):
    want = upstream_want(c)
    for items, ex in ret_paths(f):
        st = steps(f, items, {'info_sync', 'meta_info_sync', 'forward'})
        seq, own, linked = [], 0, False
        for s in st:
            if s.tgt == 'params' or (isinstance(s.tgt, str) and s.tgt.startswith('param')):
                continue
            if s.tgt == 'partial' and is_param(c):
                continue
            if s.tgt == 'partial' or isinstance(s.tgt, tuple):
                return False, s.detail, s.where()
            if s.tgt == 'self' and s.name == 'info_sync':
                own += 1
                if seq:
                    return False, 'neighbours are synced before this module has its own configuration', s.where()
            elif s.name == 'meta_info_sync' and s.tgt in ('up', 'inputs'):
                seq.append(s.tgt)
            elif s.name == 'forward' and s.tgt == 'up':
                linked = any(f.is_self(a) for a in s.ev.args)
            elif s.name == 'forward':
                continue
            else:
                return False, 'unexpected %s on %s' % (s.name, s.tgt), s.where()
        if own != 1:
            return False, 'own sync runs %d times on a path' % own, f.where(None)
        if seq != want:
            return False, 'neighbours synced: %s, expected %s' % (seq, want), f.where(None)
        bs = backward_static(c, prog)
        if want == ['up'] and bs and bs[1] and not linked:
            return False, 'a static neighbour is synced without having been linked to this module', f.where(None)
    return True, 'own sync, then one recursive sync per neighbour, on every path', f.where(None)

def judge_restart(prog, f, chain, CL):
    cls = fn_class(f)
    inst = [o for k, (o, sz, ty) in prog.layout(cls).items() if ty == 'ChainInfo']
    num = CL['module_num'][0]
    for items, ex in ret_paths(f):
        cnt = [e for e in items if e.kind == 'store' and (any(e.addr == add(f.this(), I(i + num)) for i in inst) or
                                                           drop_version(e.addr) == add(('ld', add(f.this(), I(chain))), I(num)))]
        if not cnt or cnt[-1].val != I(1):
            return False, 'the module count is not restarted, so a repeated sync counts every module again', f.where(None)
    return True, 'module count restarted at one', f.where(None)

def is_fwd(f, t, fwd):
    """term denotes the forward module of f's object"""
    t = drop_version(t)
    if t[0] == 'call':
        i = f.ins.get(t[1])
        e = f.event(i) if i else None
        return bool(e and e.name == 'forward' and e.obj is not None and f.is_self(e.obj))
    if t[0] == 'ld':
        b, o = base_off(t[1])
        return b is not None and f.is_self(b) and o == fwd
    return False

def judge_own(prog, f, info, isz, chain, fwd, num):
    for items, ex in ret_paths(f):
        vals = final_values(f, items, f.is_self, info, info + isz)
        def src(a, o, sz):
            b, so = base_off(a)
            if b is None:
                return False
            if is_fwd(f, b, fwd):
                return so == o
            # copy through get_info() kept as call
            return False
        used = {info + o + k for o, sz, ty in prog.layout('ModuleInfo').values() for k in range(sz)}
        miss = covers(vals, info, info + isz, src) & used
        if miss:
            return False, 'bytes %s of the configuration are not taken from the forward module' % (sorted(miss)[:8],), f.where(None)
        cs = [e for e in items if e.kind == 'store' and base_off(e.addr)[0] is not None and f.is_self(base_off(e.addr)[0]) and base_off(e.addr)[1] == chain]
        if len(cs) != 1:
            return False, 'the chain record is set %d times' % len(cs), f.where(None)
        v = drop_version(cs[0].val)
        if v[0] != 'ld' or base_off(v[1])[1] != chain or not is_fwd(f, base_off(v[1])[0] or ('i', 0), fwd):
            return False, 'the chain record is not the one of the forward module: %s' % tstr(v), cs[0].where()
        # counting
        inc = []
        for e in walk_events(items):
            if e.kind == 'store':
                b, o = base_off(drop_version(e.addr))
                if o == num and b is not None and b[0] == 'ld' and base_off(b[1])[1] == chain and b[0] == 'ld':
                    inc.append(e)
        if len(inc) != 1:
            return False, 'the module count is written %d times' % len(inc), f.where(None)
        e = inc[0]
        b, o = base_off(drop_version(e.addr))
        if b != v and not (f.is_self(base_off(b[1])[0] or ('i', 0)) and items.index(e) > items.index(cs[0])):
            return False, 'the module counts itself in another chain record', e.where()
        if sub(drop_version(e.val), ('ld', drop_version(e.addr))) != I(1):
            return False, 'the module count does not grow by exactly one', e.where()
    return True, 'whole configuration and chain record of the forward module adopted, counted once', f.where(None)

PAIRS = [('sample_rate', 'sample_rate'), ('in_buffer', 'buffer_size'), ('out_buffer', 'buffer_size'), ('channels', 'channels')]

def judge_sink(prog, f, info, chain, ML, CL):
    cls = fn_class(f)
    inst = [o for k, (o, sz, ty) in prog.layout(cls).items() if ty == 'ChainInfo']
    num = CL['module_num'][0]
    for items, ex in ret_paths(f):
        vals = final_values(f, items, f.is_self, info, info + 64)
        for mf, cf in PAIRS:
            o, sz, _ = ML[mf]
            co = CL[cf][0]
            v = vals.get(info + o)
            src = None if v is None else add(v[1], I(v[2])) if v[0] == 'copy' else v[1] if v[2] == 0 and v[3] == sz else None
            if v is not None and v[0] == 'copy':
                src = ('ld', src)
            if any(vals.get(info + o + k, (0, 0, 0, 0, None))[4] is not (v and v[4]) for k in range(sz)):
                src = None
            if src is None:
                return False, 'the %s of the sink is not refreshed' % mf, f.where(None)
            ok = src[0] == 'ld' and any(src[1] == add(f.this(), I(i + co)) for i in inst) or \
                src == ('ld', add(('ld', add(f.this(), I(chain))), I(co)))
            if not ok:
                return False, 'the %s of the sink comes from %s, not from the chain record\'s %s' % (mf, tstr(src), cf), f.where(None)
    return True, 'every field from the matching field of the chain record', f.where(None)
