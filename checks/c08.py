"""C08 linking records the connection in both directions."""
from kern import *
from chainsim import *
LEVEL = 'other'
EXPLANATION = ('For every module class the final overrider of link is judged on every path: the given module becomes the backward module (or, in mixers, exactly one new entry of the input list), it is told exactly once that this module is its forward module, and it is returned; '
               'classes with a statically held neighbour refuse dynamic links without recording anything, and static linking moves the whole module in and tells the stored one. The forward accessor returns what the forward setter stored. '
               'A sink\'s chain record pointer designates the record inside the sink itself after construction, copy and move.')
EXPLANATION += ' Code whose form these rules cannot see is followed instead by abstract interpretation over abstract neighbour modules (up to 65 inputs, every field a symbol, branches on unknown values refused), where the same effects must be found.'
ASSUMPTIONS = ['std::vector::push_back appends its argument']

def alias(f, items):
    """local variables that only ever hold one argument: alloca -> value"""
    out = {}
    for e in walk_events(items):
        if e.kind == 'store' and e.addr[0] == 'alloca':
            out.setdefault(e.addr, set()).add(drop_version(e.val))
    return {k: list(v)[0] for k, v in out.items() if len(v) == 1}

def deref(t, al):
    t = drop_version(t)
    return subst(t, lambda x: al.get(x[1]) if x[0] == 'ld' and x[1] in al else None)

def run(ctx):
    prog = ctx.program([r'::(link|link_static|forward|info_sync)\(', r'^SinkModule<BaseModule\*>::SinkModule\(', '^wit_'])
    slots = base_vt(prog)
    fwd = member_via(prog, 'wit_base_forward')
    chain = member_via(prog, 'wit_get_chain_info')
    n = 0
    for c in classes(prog):
        m = mangled_overrider(prog, c, slots, 'link', 1)
        if m in (None, '__cxa_pure_virtual') or c.name == 'BaseModule':
            continue
        f = overrider(prog, c, slots, 'link', 1)
        ctx.fn(f)
        n += 1
        ok, det, wh = either(judge_link(prog, c, f, fwd), lambda: links(prog, c, f, slots))
        ctx.ob('links', c.name + '::link', ok, det, wh)
        for arity in (0, 1):
            g = overrider(prog, c, slots, 'forward', arity)
            if fn_class(g) == 'ModuleMixUp':
                continue                         # judged by C06
            ctx.fn(g)
            for items, ex in ret_paths(g):
                if arity == 0:
                    r = drop_version(g.op(ex['a'][0]))
                    ok = r == ('ld', add(g.this(), I(fwd))) and not [e for e in walk_events(items) if e.kind in ('store', 'copy')]
                    ok, det = either((ok, 'returns %s' % tstr(r)), lambda: forward_get(prog, c, g, slots))
                    ctx.ob('forward-accessor', c.name + '::forward()', ok, det, g.where(None))
                else:
                    st = [e for e in walk_events(items) if e.kind in ('store', 'copy', 'call', 'vcall')]
                    ok = len(st) == 1 and st[0].kind == 'store' and st[0].addr == add(g.this(), I(fwd)) and st[0].val == ('arg', 1)
                    ok, det = either((ok, 'stores %s' % [repr(e)[:80] for e in st]), lambda: forward_set(prog, c, g, slots))
                    ctx.ob('forward-accessor', c.name + '::forward(module)', ok, det, g.where(None))
    ctx.need('link overriders', n, 45)
    k = 0
    for f in prog.find(r'::link_static\('):
        cls = fn_class(f)
        bo = prog.layout(cls).get('backwardv')
        if not bo or bo[2].endswith('*'):
            continue
        k += 1
        ctx.fn(f)
        ok, det, wh = judge_static(prog, f, bo)
        ctx.ob('links-static', cls + '::link_static', ok, det, wh)
    ctx.need('static links', k, 1)
    inst = [o for kk, (o, sz, ty) in prog.layout('SinkModule<BaseModule*>').items() if ty == 'ChainInfo']
    cf = prog.find(r'^SinkModule<BaseModule\*>::SinkModule\(')
    ctx.need('sink constructors', len(cf), 3)
    for f in cf + [prog.one('^wit_sink_assign$'), prog.one('^wit_sink_moveassign$')]:
        a = f.this() if f in cf else ('arg', 0)
        w = f.dem
        for items, ex in ret_paths(f):
            fin = None
            for e in items:
                if e.kind == 'store' and e.addr == add(a, I(chain)):
                    fin = drop_version(e.val)
                elif e.kind == 'copy' and isconst(sub(e.addr, a)) and isconst(e.size) and sub(e.addr, a)[1] <= chain < sub(e.addr, a)[1] + e.size[1]:
                    fin = ('ld', add(e.val, I(chain - sub(e.addr, a)[1])))
            ok = fin is not None and any(fin == add(a, I(i)) for i in inst)
            det = 'chain pointer of the sink is %s' % (tstr(fin) if fin else 'not set')
            if f not in cf:
                ok, det = either((ok, det), lambda: sink_assign(prog, next(c for c in classes(prog) if c.name == 'SinkModule<BaseModule*>'), f, slots))
            ctx.ob('own-chain-record', w, ok, det, f.where(None))

def judge_link(prog, c, f, fwd):
    bs = backward_static(c, prog)
    kind = upstream_kind(c)
    cls = fn_class(f)
    mod = ('arg', 1)
    for items, ex in ret_paths(f):
        al = alias(f, items)
        r = deref(f.op(ex['a'][0]), al)
        calls = [e for e in walk_events(items) if e.kind in ('vcall', 'call') and e.name == 'forward' and len(e.args) >= (1 if e.kind == 'vcall' else 2)]
        if bs and bs[1] and not bs[2].endswith('*') and kind != 'mixdown':
            eff = [e for e in walk_events(items) if e.kind in ('store', 'copy', 'call', 'vcall')]
            if eff or r != I(0):
                return False, 'a module with a static neighbour accepts a dynamic link', f.where(None)
            continue
        if len(calls) != 1 or deref(calls[0].obj, al) != mod:
            return False, 'the linked module is told its forward module %d times' % len(calls), f.where(None)
        if not f.is_self(deref(calls[0].args[-1], al)):
            return False, 'the linked module is told to forward to %s' % tstr(calls[0].args[-1]), calls[0].where()
        if kind == 'mixdown':
            co = collections(prog, cls).get('inputs')
            if not co:
                raise AnalysisError('%s has no input list' % cls)
            push = [e for e in walk_events(items) if e.kind == 'call' and e.name in ('push_back', 'emplace_back', 'insert') and e.args[0] == add(f.this(), I(co[0]))]
            if len(push) != 1 or deref(('ld', push[0].args[-1]), al) != mod and push[0].args[-1] != mod:
                return False, 'the module is added to the inputs %d times' % len(push), f.where(None)
            other = [e for e in walk_events(items) if e.kind == 'call' and e.args and e.args[0] == add(f.this(), I(co[0])) and e not in push and e.name not in ('size', 'begin', 'end', 'back', 'reserve', 'empty')]
            if other:
                return False, 'the input list is also changed by %s' % other[0].name, other[0].where()
        else:
            bo = prog.layout(cls)['backwardv'][0]
            st = [e for e in items if e.kind == 'store' and base_off(e.addr)[0] is not None and f.is_self(base_off(e.addr)[0]) and base_off(e.addr)[1] == bo]
            if not st or deref(st[-1].val, al) != mod:
                return False, 'the backward module is %s' % ([tstr(e.val) for e in st] or 'not stored'), f.where(None)
        if r != mod:
            return False, 'link returns %s, not the linked module' % tstr(r), f.where(None)
    return True, 'recorded in both directions and returned', f.where(None)

def judge_static(prog, f, bo):
    own = add(f.this(), I(bo[0]))
    for items, ex in ret_paths(f):
        calls = [e for e in walk_events(items) if e.kind in ('vcall', 'call') and e.name == 'forward' and len(e.args) >= (1 if e.kind == 'vcall' else 2)]
        if len(calls) != 1 or drop_version(calls[0].obj) != own or not f.is_self(calls[0].args[-1]):
            return False, 'the stored module is told its forward module %d times' % len(calls), f.where(None)
        last = items.index(calls[0])
        moved = [e for e in items[:last] if (e.kind in ('store', 'copy') and isconst(sub(drop_version(e.addr), own))) or (e.kind == 'call' and e.name == 'operator=')]
        if not moved:
            return False, 'the module is told its forward module before it is stored', f.where(None)
        if drop_version(f.op(ex['a'][0])) != own:
            return False, 'returns %s' % tstr(f.op(ex['a'][0])), f.where(None)
    return True, 'moved in, told, returned', f.where(None)
