"""P01 lock discipline of the parallel module."""
from parlib import *
LEVEL = 'other'
EXPLANATION = ('A disjunctive lock-state dataflow (which mutexes each guard object owns) over every instruction of the worker function and of every public operation of the parallel module, library primitives kept as calls. '
               'Every access to the queue or to an element still inside it must have the mutex in every reachable state; every other field touched by the worker and written anywhere must be atomic or locked at each access; '
               'the worker must own no mutex while it processes the chain behind, no mutex may be locked twice, joined under, or left locked at a return.')
ASSUMPTIONS = ['std::mutex, std::unique_lock, std::lock_guard, std::condition_variable and std::deque behave as in the standard', 'modules are not linked or relinked while the worker runs', 'exceptions are not modelled']

def run(ctx):
    par = Par(ctx)
    nq = 0
    touched = {}
    for role, f in [('worker', par.worker)] + [('api', f) for f in par.api]:
        ctx.fn(f)
        nm = 'worker' if role == 'worker' else f.dem.split('(')[0]
        site = {}
        def visit(i, e, s, x):
            held = s.held()
            q = queue_access(par, f, i, e)
            if q:
                k = (i['i'], 'queue')
                site.setdefault(k, [i, e, q, True])
                if not held & set(par.mutexes):
                    site[k][3] = False
            if e is not None and e.kind == 'vcall' and e.name in ('meta_process', 'process') and role == 'worker':
                site.setdefault((i['i'], 'proc'), [i, e, 'processing', True])
                if held:
                    site[(i['i'], 'proc')][3] = False
            if e is not None and e.kind == 'call' and e.name == 'join' and par.field(f, e.args[0]) in par.threads:
                site.setdefault((i['i'], 'join'), [i, e, 'join', True])
                if held:
                    site[(i['i'], 'join')][3] = False
            if e is not None and e.kind == 'call' and re.search(r'std::condition_variable(_any)?::wait', e.full):
                site.setdefault((i['i'], 'wait'), [i, e, 'wait', True])
                g = e.args[1] if len(e.args) > 1 else None
                if not (g in s.g and s.g[g][1]):
                    site[(i['i'], 'wait')][3] = False
            if i['o'] == 'ret':
                site.setdefault((i['i'], 'ret'), [i, e, 'return', True])
                if held:
                    site[(i['i'], 'ret')][3] = False
            for o, w, atom in field_access(par, f, i, e):
                touched.setdefault(o, []).append((role, nm, w, atom, bool(held & set(par.mutexes)), f.where(i)))
        pr = flow(par, f, visit)
        for (n, k), (i, e, what, ok) in sorted(site.items(), key=lambda z: (z[0][0], z[0][1])):
            if k == 'queue':
                nq += 1
                ctx.ob('queue-locked', nm, ok, '%s access to the queue %s' % (what, 'under the mutex' if ok else 'without the mutex'), f.where(i))
            elif k == 'proc':
                ctx.ob('unlocked-processing', nm, ok, 'the chain behind is processed %s' % ('without a lock' if ok else 'while the mutex is held'), f.where(i))
            elif k == 'join':
                ctx.ob('no-join-locked', nm, ok, 'joins the worker %s' % ('without a lock' if ok else 'while holding the mutex the worker needs'), f.where(i))
            elif k == 'wait':
                ctx.ob('wait-locked', nm, ok, 'waits %s' % ('with its lock held' if ok else 'with a lock it does not hold'), f.where(i))
            elif k == 'ret':
                ctx.ob('released', nm, ok, 'every lock is released at the return' if ok else 'a lock is still held at the return', f.where(i))
        ctx.ob('lock-protocol', nm, not pr, '; '.join(sorted({m for _, m in pr})) or 'no double lock or foreign unlock', (pr[0][0].where() if pr else f.where(None)))
    for o, acc in sorted(touched.items()):
        if o in (0, par.back_off) or not any(a[0] == 'worker' for a in acc) or not any(a[2] for a in acc):
            continue
        bad = [a for a in acc if not a[3] and not a[4]]
        ctx.ob('shared-field', par.name(o), not bad, 'every access is atomic or locked' if not bad else 'plain access in %s while another thread uses it' % bad[0][1], bad[0][5] if bad else acc[0][5])
    ctx.need('queue accesses', nq, 6)
    ctx.need('functions', len(ctx.analysed), 8)

def field_access(par, f, i, e):
    """[(member offset, is write, is atomic)] for direct memory accesses of module fields other than the synchronisation objects"""
    out = []
    skip = set(par.mutexes + par.cvs + par.threads + [par.q])
    if i['o'] == 'load':
        o = par.field(f, f.sterm(i['a'][0]))
        if o is not None and o not in skip:
            out.append((o, False, bool(i.get('atomic'))))
    elif e is not None and e.kind == 'store':
        o = par.field(f, e.addr)
        if o is not None and o not in skip:
            out.append((o, True, bool(i.get('atomic'))))
    elif e is not None and e.kind == 'atomic' and e.addr is not None:
        o = par.field(f, e.addr)
        if o is not None and o not in skip:
            out.append((o, True, True))
    elif e is not None and e.kind in ('copy', 'fill'):
        for a, w in ((e.addr, True), (e.val, False)):
            o = par.field(f, a) if isinstance(a, tuple) else None
            if o is not None and o not in skip:
                out.append((o, w, False))
    elif e is not None and e.kind == 'call':
        for a in e.args:
            o = par.field(f, a)
            if o is not None and o not in skip and o != 0:
                out.append((o, True, False))
    return out
