"""P02 wake-ups and termination of the parallel module."""
from parlib import *
LEVEL = 'other'
EXPLANATION = ('For every condition-variable wait: the innermost loop around it holds nothing but the re-test of its condition, and the condition, evaluated for every small combination of queue size, maximum and stop flag, waits exactly while the role must wait. '
               'For every instruction that pushes, pops, sets the stop flag or changes the maximum: the mutex is held in every state of a lock-state dataflow, and on every path to the return a notification follows that reaches the threads which may wait for it. '
               'Every path of stop, start and the destructor that meets a joinable worker sets the stop flag, wakes the worker and joins it (or detaches it when it is the calling thread), and the worker leaves its loop once it has seen the flag.')
ASSUMPTIONS = ['std synchronisation primitives behave as in the standard', 'the chain behind returns from every processing call', 'exceptions are not modelled']

def change_of(par, f, i, e):
    """set of condition changes an instruction makes"""
    if e is None:
        return set()
    if e.kind == 'call' and re.search(r'std::deque<', e.full) and e.args and par.field(f, e.args[0]) == par.q and e.name not in Q_CONST and not e.name.startswith('~') and e.name != 'deque':
        if e.name in ('push_back', 'emplace_back', 'push_front', 'emplace_front', 'insert'):
            return {'push'}
        return {'pop'} if e.name in ('pop_front', 'pop_back', 'erase', 'clear') else {'push', 'pop'}
    if e.kind == 'store' or (e.kind == 'atomic' and e.addr is not None):
        o = par.off(f, e.addr)
        if o == par.flag:
            v = drop_version(e.val) if e.kind == 'store' else None
            return set() if v is not None and isconst(v) and v[1] == 0 else {'stop'}
        if o == par.maxo:
            return {'maximum'}
    return set()

def run(ctx):
    par = Par(ctx)
    ctx.need('waits', len(par.waits), 2)
    for f, e in par.waits:
        wait_rules(ctx, par, f, e)
    nch = 0
    for role, f in [('worker', par.worker)] + [('api', f) for f in par.api]:
        ctx.fn(f)
        nm = 'worker' if role == 'worker' else f.dem.split('(')[0]
        ch, lost = {}, {}
        def visit(i, e, s, x):
            for c in change_of(par, f, i, e):
                ch.setdefault((i['i'], c), [i, True])
                if not s.held() & set(par.mutexes):
                    ch[(i['i'], c)][1] = False
            if i['o'] == 'ret' or (e is not None and e.kind == 'call' and e.name == 'join') or (role == 'worker' and e is not None and (e.kind == 'vcall' or re.search('::wait', getattr(e, 'full', '') or ''))):
                for c, n in x:
                    if not (e is not None and e.kind == 'vcall' and e.name == 'get_buffer'):
                        lost[n] = (c, f.where(f.ins[n]))
        def st(i, e, s, x):
            for c in change_of(par, f, i, e):
                x = tuple(sorted(set(x) | {(c, i['i'])}))
            if e is not None and e.kind == 'call' and par.off(f, e.args[0] if e.args else None) in par.cvs:
                if e.name == 'notify_all':
                    x = ()
                elif e.name == 'notify_one':
                    x = tuple(y for y in x if y[0] not in ('push', 'pop'))
            if e is not None and spawns(e):
                x = tuple(y for y in x if y[0] != 'pop')
            return x
        flow(par, f, visit, (), st)
        for (n, c), (i, ok) in sorted(ch.items()):
            nch += 1
            fresh = c == 'pop' and False
            ctx.ob('change-locked', '%s: %s' % (nm, c), ok, 'the change is made %s' % ('under the mutex' if ok else 'without the mutex: a thread about to wait can miss it'), f.where(i))
            ctx.ob('change-notified', '%s: %s' % (nm, c), n not in lost, 'waiting threads are woken afterwards' if n not in lost else 'no notification that reaches every waiting thread follows', f.where(i))
    ctx.need('condition changes', nch, 8)
    # termination
    for f in par.api:
        m = re.match(r'^ParallelModule::(stop|start|~ParallelModule)\(', f.dem)
        if not m:
            continue
        ok, why, wh = True, '', f.where(None)
        n = 0
        for items, ex in ret_paths(f):
            for seq in expand(items):
                if not feasible(par, f, seq):
                    continue
                k = len(seq)
                for j, e in enumerate(seq):
                    if (m.group(1) == 'start' and spawns(e)) or (m.group(1)[0] == '~' and e.kind == 'call' and e.name.startswith('~') and e.args and par.field(f, e.args[0]) in [par.q] + par.cvs + par.threads):
                        k = j
                        break
                n += 1
                o, w = worker_ended(par, f, seq, k)
                if not o:
                    ok, why = False, w
        ctx.ob('worker-ended', f.dem, ok and n > 0, why or 'every path ends a running worker (%d paths)' % n, wh)
    # the worker leaves once it has seen the flag
    f = par.worker
    bad = None
    nb = 0
    waits = {e.ins['i'] for g, e in par.waits if g is f}
    for L in f.loops.values():
        if not any(e.kind == 'vcall' and e.name in ('meta_process', 'process') for b in L.bodies() for e in walk_events(b)):
            continue
        for b in L.bodies():
            for seq in expand(b):
                if not feasible(par, f, seq):
                    continue
                nb += 1
                can = [{v['d'] for v in ENVS if holds(par, f, cs, v)} for cs in segments(seq)]
                if {1} in can:
                    bad = 'the worker keeps running after it has seen the stop flag'
                if {0} not in can:
                    bad = bad or 'an iteration of the worker does not test the stop flag after waiting'
    ctx.ob('worker-exits', 'worker', bad is None and nb > 0, bad or 'every iteration continues only while the stop flag is clear (%d iterations)' % nb, f.where(None))

def wait_rules(ctx, par, f, e):
    role = 'worker' if f is par.worker else f.dem.split('(')[0]
    L = wait_loop(f, e)
    pure = L is not None
    if L is not None:
        for b in L.blocks:
            for i in f.blocks[b]['ins']:
                v = f.event(i)
                if v is not None and v is not e and not (v.kind == 'call' and (v.name in Q_CONST or re.search('::wait|_Deque_iterator|operator', v.full))):
                    pure = False
    ctx.ob('wait-retested', role, pure, 'the condition is tested again after every wake-up' if pure else 'a wake-up is taken for the condition without testing it again', e.where())
    if not pure:
        return
    bad = None
    for env in ENVS:
        try:
            w = any(holds(par, f, inner_conds(seq), env, True) for b in L.bodies() for seq in expand(b))
        except AnalysisError as u:
            bad = str(u)
            break
        want = (env['s'] >= env['m'] if f is par.worker else env['s'] == 0) and not env['d']
        if w != want:
            bad = 'with %d of %d buffers queued and the stop flag %s it %s' % (env['s'], env['m'], 'set' if env['d'] else 'clear', 'waits' if w else 'does not wait')
            break
    ctx.ob('wait-condition', role, bad is None, bad or 'waits exactly while %s and not stopped' % ('the queue is full' if f is par.worker else 'the queue is empty'), e.where())
