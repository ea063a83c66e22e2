"""P04 thread ownership of the parallel module."""
from parlib import *
LEVEL = 'other'
EXPLANATION = ('The call graph of the parallel module is split by thread: the worker function and the public operations (base-class chain operations resolved to the module\'s overriders). Only the worker may process the module behind or take its buffer, and it calls nothing else on the chain. '
               'On every path of the chain start and stop operations, the running worker is ended (told to stop, woken, joined) before the chain behind is started or stopped, and the new thread is created once, after the chain behind has been started, by the start hook and nowhere else; '
               'the destructor ends the worker before any member is destroyed.')
ASSUMPTIONS = ['std synchronisation primitives behave as in the standard', 'exceptions are not modelled', 'state operations other than start and stop are called while no worker runs']

def run(ctx):
    par = Par(ctx)
    p = par.prog
    f = par.worker
    ctx.fn(f)
    from p03 import is_back
    vs = [e for e in all_calls(f) if e.kind == 'vcall']
    bad = [e for e in vs if not (is_back(par, f, e.obj) and e.name in ('meta_process', 'get_buffer'))]
    ctx.ob('worker-calls', 'worker', not bad and any(e.name == 'meta_process' for e in vs), 'calls %s on the chain' % ', '.join(sorted({e.name for e in (bad or vs)})), (bad or vs or [None])[0].where() if (bad or vs) else f.where(None))
    from p01 import field_access
    wr = [(i, o) for i in f.ins.values() for o, w, at in field_access(par, f, i, f.event(i)) if w]
    fields = sorted({par.name(o) for i, o in wr})
    ctx.ob('worker-writes', 'worker', not fields, 'writes %s of the module' % (', '.join(fields) or 'no field'), f.where(wr[0][0]) if wr else f.where(None))
    for g in par.api:
        ctx.fn(g)
        bad = [e for e in all_calls(g) if e.kind == 'vcall' and e.name in ('meta_process', 'process', 'get_buffer') and not g.is_self(drop_version(e.obj))]
        ctx.ob('only-worker-processes', g.dem, not bad, 'processes the chain outside the worker (%s)' % bad[0].name if bad else 'does not process the chain', bad[0].where() if bad else g.where(None))
        sp = [e for e in all_calls(g) if spawns(e)]
        isstart = bool(re.search(r'ParallelModule::start\(', g.dem))
        n = 0
        if isstart:
            for items, ex in ret_paths(g):
                for seq in expand(items):
                    if feasible(par, g, seq):
                        n = max(n, sum(1 for e in seq if spawns(e)))
                        if not any(spawns(e) for e in seq):
                            n = 99
        ctx.ob('one-thread', g.dem, (n == 1) if isstart else not sp, ('creates one thread on every path' if n == 1 else 'some path does not create exactly one thread') if isstart else ('creates a thread' if sp else 'creates no thread'), sp[0].where() if sp else g.where(None))
    for name in ('meta_start', 'meta_stop'):
        own = [g for g in p.fns.values() if re.match(r'^ParallelModule::%s\(' % name, g.dem)] or [g for g in p.fns.values() if re.match(r'^AudioModule<void, BaseModule\*>::%s\(' % name, g.dem)]
        for g in own:
            bad, n = None, 0
            wh = g.where(None)
            for items, ex in ret_paths(g):
                for seq in expand(items):
                    if not feasible(par, g, seq):
                        continue
                    n += 1
                    ups = [k for k, e in enumerate(seq) if e.kind == 'vcall' and e.name == name and not g.is_self(drop_version(e.obj))]
                    if len(ups) != 1:
                        bad = 'the chain behind gets %s %d times' % (name, len(ups))
                        continue
                    ok, why = worker_ended(par, g, seq, ups[0])
                    if not ok:
                        bad = '%s before the chain behind gets %s' % (why, name)
                        wh = seq[ups[0]].where()
                    hk = [k for k, e in enumerate(seq) if e.kind in ('vcall', 'call') and e.name == name[5:] and g.is_self(drop_version(e.obj))] + [k for k, e in enumerate(seq) if spawns(e)]
                    if name == 'meta_start' and (not hk or min(hk) < ups[0]):
                        bad = bad or 'the thread is not created after the chain behind has been started'
            ctx.ob('worker-ended-first', name, bad is None and n > 0, bad or 'the worker has ended before the chain behind gets %s (%d paths)' % (name, n), wh)
    for g in par.api:
        if '::~' not in g.dem:
            continue
        bad, n = None, 0
        for items, ex in ret_paths(g):
            for seq in expand(items):
                ks = [k for k, e in enumerate(seq) if e.kind == 'call' and e.name.startswith('~') and e.args and par.field(g, e.args[0]) in [par.q] + par.cvs + par.threads]
                n += 1
                ok, why = worker_ended(par, g, seq, min(ks) if ks else len(seq))
                if not ok:
                    bad = why
        ctx.ob('destroyed-after-worker', g.dem, bad is None and n > 0, bad or 'the worker has ended before the members are destroyed', g.where(None))
    ctx.need('functions', len(ctx.analysed), 8)
