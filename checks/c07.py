"""C07 parameters: every parameter of a parameterised module is started, stopped, configured and read as a chain of its own."""
from kern import *
LEVEL = 'other'
EXPLANATION = ('For every class that holds parameters, every path of start / stop / sync must treat each parameter exactly once (loop over the whole parameter array by scalar evolution, or every element singly): start and stop call the same entry of the parameter; '
               'sync first takes the module\'s own configuration and then, per parameter, sets its forward module to this module, stores buffer size, channel count and sample rate of this module into the parameter\'s chain record, and syncs the parameter\'s chain after those stores. '
               'Reading a parameter runs its chain once and returns the buffer taken afterwards; setting a constant stores the value, owns a constant module built with that value and links it.')
ASSUMPTIONS = ['parameters are members of the module that lists them (null entries do not occur)']

def run(ctx):
    prog = ctx.program([r'::(meta_start|meta_stop|meta_info_sync)\(', r'ModuleParam::(get|set_constant|conf_mod)\(', '^BaseParamModule<3>::param_', '^wit_', 'ConstModule::(process|get_value|set_value)'])
    slots = base_vt(prog)
    info = member_via(prog, 'wit_get_info')
    chain = member_via(prog, 'wit_get_chain_info')
    ML, CL = prog.layout('ModuleInfo'), prog.layout('ChainInfo')
    n = 0
    for c in classes(prog):
        if not is_param(c):
            continue
        for m in ('meta_start', 'meta_stop'):
            f = overrider(prog, c, slots, m)
            ctx.fn(f)
            n += 1
            ok, det, wh = judge_life(prog, f, m)
            ctx.ob('each-parameter', '%s::%s' % (c.name, m), ok, det, wh)
        f = overrider(prog, c, slots, 'meta_info_sync')
        ctx.fn(f)
        n += 1
        ok, det, wh = judge_sync(prog, f, info, chain, ML, CL)
        ctx.ob('each-parameter', '%s::meta_info_sync' % c.name, ok, det, wh)
    ctx.need('entry points of parameterised classes', n, 12)
    f = prog.one(r'^ModuleParam::conf_mod\(')
    ctx.fn(f)
    ok, det, wh = judge_conf(prog, f, ret_paths(f), f.this(), ('arg', 1), info, chain, ML, CL)
    ctx.ob('configure', 'ModuleParam::conf_mod', ok, det, wh)
    f = prog.one(r'^ModuleParam::get\(')
    ctx.fn(f)
    for items, ex in ret_paths(f):
        calls = [e for e in walk_events(items) if e.kind in ('call', 'vcall') and e.name in ('meta_process', 'get_buffer', 'process', 'set_buffer')]
        names = [(e.name, f.is_self(e.obj)) for e in calls]
        loops = any(it.kind == 'loop' and any(e in calls for e in walk_events([it])) for it in items)
        ok = names == [('meta_process', True), ('get_buffer', True)] and not loops
        r = f.op(ex['a'][0])
        ok = ok and r == f.term(calls[1].ins['i'])
        ctx.ob('read', 'ModuleParam::get', ok, 'steps %s, returns %s' % ([x for x, _ in names], tstr(r)), f.where(None))
    f = prog.one(r'^ModuleParam::set_constant\(')
    ctx.fn(f)
    ok, det, wh = judge_const(prog, f)
    ctx.ob('constant', 'ModuleParam::set_constant', ok, det, wh)

def judge_life(prog, f, m):
    cls = fn_class(f)
    npar = collections(prog, cls).get('params', (0, 0))[1]
    for items, ex in ret_paths(f):
        st = merge_params(steps(f, items, {'meta_start', 'meta_stop', 'meta_finish', 'start', 'stop'}), npar)
        ps = [s for s in st if s.tgt in ('params', 'partial') or (isinstance(s.tgt, str) and s.tgt.startswith('param:'))]
        if [(s.name, s.tgt) for s in ps] != [(m, 'params')]:
            return False, 'parameters: %s' % [(s.name, s.tgt, s.detail) for s in ps], f.where(None)
    return True, 'every parameter once', f.where(None)

def conf_ok(f, items, par, mod, info, chain, ML, CL, loops=()):
    """the events configure parameter term `par` from module term `mod`; returns reason or None"""
    rec = ('ld', add(par, I(chain)))
    seen, fw, sy = {}, 0, 0
    for e in items:
        if e.kind == 'store':
            d = sub(drop_version(e.addr), rec)
            if isconst(d):
                for k in ('buffer_size', 'channels', 'sample_rate'):
                    if CL[k][0] == d[1]:
                        v = drop_version(e.val)
                        seen[k] = v
        elif e.kind in ('vcall', 'call') and e.name == 'forward' and drop_version(e.obj) == par and len(e.args) >= 1:
            if not (drop_version(e.args[-1]) == mod or (f.is_self(mod) and f.is_self(e.args[-1]))):
                return 'the forward module of the parameter is %s' % tstr(e.args[-1])
            fw += 1
        elif e.kind in ('vcall', 'call') and e.name == 'conf_mod' and drop_version(e.obj) == par:
            return None if f.is_self(e.args[-1]) or drop_version(e.args[-1]) == mod else 'configured from another module'
        elif e.kind in ('vcall', 'call') and e.name == 'meta_info_sync' and drop_version(e.obj) == par:
            sy += 1
            for k, srcs in (('buffer_size', ('in_buffer', 'out_buffer')), ('channels', ('channels',)), ('sample_rate', ('sample_rate',))):
                if k not in seen:
                    return 'the %s of the parameter chain is not set before it is synced' % k
                if seen[k] not in [('ld', add(mod, I(info + ML[s][0]))) for s in srcs]:
                    return 'the %s of the parameter chain is %s' % (k, tstr(seen[k]))
    if sy != 1:
        return 'the parameter chain is synced %d times' % sy
    if fw != 1:
        return 'the forward module of the parameter is set %d times' % fw
    return None

def judge_conf(prog, f, paths, par, mod, info, chain, ML, CL):
    for items, ex in paths:
        r = conf_ok(f, list(items), par, mod, info, chain, ML, CL)
        if r:
            return False, r, f.where(None)
    return True, 'forward module, size, channels and rate set, then synced once', f.where(None)

def judge_sync(prog, f, info, chain, ML, CL):
    cls = fn_class(f)
    co, n = collections(prog, cls)['params']
    for items, ex in ret_paths(f):
        own = None
        done = set()
        for k, it in enumerate(items):
            if it.kind in ('vcall', 'call') and it.name == 'info_sync' and f.is_self(it.obj):
                own = k
            if it.kind == 'loop' and any(e.kind in ('vcall', 'call') and e.name in ('meta_info_sync', 'conf_mod') and target_of(f, e.obj, cls, (it.loop,)) == 'params' for e in walk_events([it])):
                why = complete_loop(f, it, 'params', cls)
                if why:
                    return False, why, it.loop.where()
                if own is None:
                    return False, 'parameters are configured before the module itself', it.loop.where()
                for b in it.loop.bodies():
                    objs = {drop_version(e.obj) for e in b if e.kind in ('vcall', 'call') and e.name in ('meta_info_sync', 'conf_mod')}
                    if len(objs) != 1:
                        return False, 'an iteration configures %d parameters' % len(objs), it.loop.where()
                    r = conf_ok(f, b, objs.pop(), f.this(), info, chain, ML, CL)
                    if r:
                        return False, r, it.loop.where()
                if done:
                    return False, 'parameters are configured twice', it.loop.where()
                done = set(range(n))
        for i in range(n):
            par = ('ld', add(f.this(), I(co + 8 * i)))
            if any(e.kind in ('vcall', 'call') and e.name in ('meta_info_sync', 'conf_mod') and drop_version(e.obj) == par for e in items):
                r = conf_ok(f, items, par, f.this(), info, chain, ML, CL)
                if r or i in done:
                    return False, r or 'configured twice', f.where(None)
                first = next(k for k, e in enumerate(items) if e.kind in ('vcall', 'call') and e.name in ('meta_info_sync', 'conf_mod') and drop_version(e.obj) == par)
                if own is None or own > first:
                    return False, 'parameters are configured before the module itself', f.where(None)
                done.add(i)
        if done != set(range(n)):
            return False, 'only parameters %s of %d are configured' % (sorted(done), n), f.where(None)
    return True, 'every parameter configured once from this module, then synced', f.where(None)

def judge_const(prog, f):
    lay = prog.layout('ModuleParam')
    own = [o for k, (o, sz, ty) in lay.items() if 'unique_ptr<ConstModule' in ty]
    if not own:
        raise AnalysisError('the parameter owns no constant module')
    cv = prog.layout('ConstModule')
    bsz = prog.structs['BaseModule']['size']
    vals = [o for k, (o, sz, ty) in cv.items() if ty == 'double' and o >= prog.structs['BaseModule']['size'] - 8 and k not in prog.layout('BaseModule')]
    for items, ex in ret_paths(f):
        news = [e for e in items if e.kind == 'call' and e.full.startswith('operator new')]
        links = [(k, e) for k, e in enumerate(items) if e.kind in ('vcall', 'call') and e.name == 'link' and f.is_self(e.obj)]
        if len(links) != 1:
            return False, 'the constant module is linked %d times' % len(links), f.where(None)
        m = drop_version(links[0][1].args[-1])
        if len(news) != 1 or not (m == f.term(news[0].ins['i']) or m == ('ld', add(f.this(), I(own[0])))):
            return False, 'the linked module is not the newly built one: %s' % tstr(m), links[0][1].where()
        p = f.term(news[0].ins['i'])
        if not any(e.kind == 'store' and base_off(e.addr)[0] == f.this() and base_off(e.addr)[1] == own[0] and e.val == p for e in items):
            return False, 'the constant module is not kept', f.where(None)
        v = [e for e in items if e.kind == 'store' and base_off(e.addr)[0] == p and base_off(e.addr)[1] in vals]
        c = [e for e in items if e.kind == 'call' and e.name in ('ConstModule', 'set_value') and p in e.args]
        if not ((v and v[-1].val == ('arg', 1)) or (c and c[-1].args[-1] == ('arg', 1))):
            return False, 'the constant module does not produce the requested value', f.where(None)
    return True, 'new owned constant module with the value, linked', f.where(None)
