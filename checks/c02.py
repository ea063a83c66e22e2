"""C02 reported state: every lifecycle request leaves the module in the state of that request before its own hook runs."""
from chainsim import *
LEVEL = 'other'
EXPLANATION = ('For every module class and each of start/stop/finish, every path of the final overrider is enumerated; the last write to the module\'s own state field before '
               'the own hook call must be the enumerator of the request (enumerators and the field are resolved from debug information), and nothing may overwrite it afterwards. '
               'The base hooks and the completion report are checked to set exactly their own state; the field is private to the base class, and no function of any module class outside the lifecycle, normalised with everything it calls directly, may write it.')
EXPLANATION += ' Code whose form these rules cannot see is followed instead by abstract interpretation over abstract neighbour modules (up to 65 inputs, every field a symbol, branches on unknown values refused), where the same effects must be found.'
ASSUMPTIONS = ['own hooks are judged where they are defined; a user override may of course change the state again through the protected base hooks']
WANT = [('meta_start', 'start', 'Started'), ('meta_stop', 'stop', 'Stopped'), ('meta_finish', 'finish', 'Finishing')]

LIFE = ('start', 'stop', 'finish', 'done', 'meta_start', 'meta_stop', 'meta_finish', 'operator=')

def state_info(prog):
    enums = [v for k, v in prog.structs.items() if k.startswith('enum ') and k.endswith('BaseModule::State')]
    if len(enums) != 1:
        raise AnalysisError('state enumeration of the module base not found')
    return enums[0], member_via(prog, 'wit_get_state')

def is_state_store(f, e, off):
    if e.kind != 'store':
        return False
    d = base_off(e.addr)
    return d[1] == off and d[0] is not None and f.is_self(d[0])

def run(ctx):
    prog = ctx.program([r'meta_(start|stop|finish)\(', r'^BaseModule::', r'::done\(\)$', '^wit_', r'::(process|meta_process|info_sync|meta_info_sync|link|link_static|forward|get_buffer)\(', r'^(Module|Parallel|Chain|Base|Audio|Sink|Source|Period|Uniform|Buffer|Const|Counter|Latency|Null)\w*(<.*>)?::'])
    enum, off = state_info(prog)
    slots = base_vt(prog)
    n = 0
    for c in classes(prog):
        for meta, hook, st in WANT:
            m = mangled_overrider(prog, c, slots, meta)
            if m in (None, '__cxa_pure_virtual'):
                continue
            f = overrider(prog, c, slots, meta)
            ctx.fn(f)
            n += 1
            ok, det, wh = either(judge(f, hook, enum[st], off, st), lambda: lifecycle(prog, c, f, slots, meta, hook, enum[st]))
            ctx.ob('state-before-hook', '%s::%s' % (c.name, meta), ok, det, wh)
    ctx.need('lifecycle overriders', n, 140)
    # base hooks
    for name, st in (('start', 'Started'), ('stop', 'Stopped'), ('finish', 'Finishing'), ('done', 'Finished')):
        f = prog.one(r'^BaseModule::%s\(\)$' % name)
        ctx.fn(f)
        bad = None
        for items, ex in ret_paths(f):
            vals = [e.val for e in items if is_state_store(f, e, off)]
            if vals[-1:] != [I(enum[st])]:
                bad = 'a path leaves the state at %s' % (tstr(vals[-1]) if vals else 'its previous value')
        ctx.ob('base-hook', 'BaseModule::' + name, bad is None, bad or 'every path sets %s' % st, f.where(None))
    # completion report of every class
    for c in classes(prog):
        m = mangled_overrider(prog, c, slots, 'done')
        if m in (None, '__cxa_pure_virtual'):
            continue
        f = overrider(prog, c, slots, 'done')
        bad = None
        for items, ex in ret_paths(f):
            vals = [e.val for e in items if is_state_store(f, e, off)]
            if vals[-1:] != [I(enum['Finished'])]:
                bad = 'a path through the completion report does not end in the finished state'
        ctx.ob('done-state', c.name + '::done', bad is None, bad or 'finished on every path', f.where(None))
    # initial value
    f = prog.one('^wit_base_ctor$')
    vals = [e.val for items, ex in ret_paths(f) for e in items if e.kind == 'store' and e.addr == add(('arg', 0), I(off))]
    ctx.ob('initial', 'BaseModule::BaseModule', vals[-1:] == [I(enum['Created'])], 'a new module reports the created state', f.where(None))
    # the accessor and who else writes
    mods = {b for c in classes(prog) for b in c.bases()}
    n = 0
    for f in sorted(prog.fns.values(), key=lambda f: f.dem):
        if f.short in LIFE or f.short.startswith('~') or 'thunk' in f.dem or f.dem.startswith('wit') or fn_class(f) not in mods or f.short == fn_class(f).split('<')[0].split('::')[-1]:
            continue
        n += 1
        ev = [e for b, e in f.all_events()]
        if any(is_state_store(f, e, off) and e.size == 1 for e in ev) and not (f.j.get('ret') == 'void' and all(is_state_store(f, e, off) for e in ev)) and not prog.only_step(f):     # a helper is judged in its callers
            ctx.ob('writers', f.dem, False, 'changes the reported state outside the lifecycle', f.where(None))
    ctx.ob('writers', 'BaseModule', True, '%d functions outside the lifecycle leave the state alone' % n, '')
    ctx.need('functions outside the lifecycle', n, 60)

def judge(f, hook, want, off, st):
    for items, ex in ret_paths(f):
        val, hooked = None, False
        for e in items:
            if e.kind == 'loop':
                for x in walk_events([e]):
                    if is_state_store(f, x, off):
                        return False, 'state written inside a loop', x.where()
                continue
            if is_state_store(f, e, off):
                if hooked:
                    return False, 'state overwritten after the own hook', e.where()
                val = e.val
            if e.kind in ('vcall', 'call') and e.name == hook and f.is_self(e.obj):
                if val != I(want):
                    return False, 'the own %s hook runs while the state is %s' % (hook, tstr(val) if val else 'still the previous one'), e.where()
                hooked = True
        if val != I(want):
            return False, 'a path leaves the state at %s instead of %s' % (tstr(val) if val else 'its previous value', st), f.where(None)
    return True, 'state is %s before the own hook on every path' % st, f.where(None)
