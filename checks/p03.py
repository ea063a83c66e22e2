"""P03 hand-over of the parallel module: every produced buffer once, in order, never more than the maximum."""
from parlib import *
from c05 import layout_buffer
LEVEL = 'other'
EXPLANATION = ('Every iteration of the worker is a path: it must process the chain behind exactly once, then take the buffer of the module behind exactly once, then append exactly that buffer at the back of the queue, and nothing else may change the queue; it may process only after waiting for a free slot with the stop flag clear '
               '(the wait condition is evaluated for small sizes, maxima and flag values). Every consuming path must move the front element as a whole into the module\'s own buffer and then remove exactly that element, without releasing the mutex in between, and may take nothing only when it is stopped and the queue is empty. '
               'Starting empties the queue and clears the stop flag before the thread is created; no other operation changes the queue.')
ASSUMPTIONS = ['std::deque behaves as in the standard', 'one worker per module (P04)', 'exceptions are not modelled']

def run(ctx):
    par = Par(ctx)
    boff = layout_buffer(par.prog)
    bsize = par.ext[boff]
    # --- worker
    f = par.worker
    ctx.fn(f)
    waits = {e.ins['i'] for g, e in par.waits}
    bad, n = None, 0
    wh = f.where(None)
    loops = [L for L in f.loops.values() if any(e.kind == 'vcall' and e.name in ('meta_process', 'process') for b in L.bodies() for e in walk_events(b))]
    loops = [L for L in loops if not any(M is not L and M.blocks < L.blocks for M in loops)]
    if len(loops) != 1:
        ctx.ob('worker-iteration', 'worker', False, 'the worker processes the chain in %d loops' % len(loops), wh)
    for L in loops:
        for b in list(L.bodies()):
            for seq in expand(b):
                if not feasible(par, f, seq):
                    continue
                n += 1
                bad = bad or iteration(par, f, seq, waits)
    ctx.ob('worker-iteration', 'worker', bad is None and n > 0, bad or 'process, take, append, once each (%d paths)' % n, wh)
    # leaving the loop must not drop or add a buffer
    part = None
    for items, ex in ret_paths(f):
        for x in items:
            if x.kind == 'loop' and x.loop in loops:
                for seq in expand(x.partial):
                    if feasible(par, f, seq) and iteration(par, f, seq, waits):
                        part = 'the worker leaves in the middle of an iteration: ' + iteration(par, f, seq, waits)
    ctx.ob('worker-exit', 'worker', part is None, part or 'the worker leaves without touching the queue', wh)
    for g, e in par.waits:
        if g is not f:
            continue
        L = wait_loop(f, e)
        w = None
        if L is None:
            w = 'waits outside a loop'
        else:
            for env in ENVS:
                try:
                    if env['s'] >= env['m'] and not env['d'] and not any(holds(par, f, inner_conds(seq), env, True) for b in L.bodies() for seq in expand(b)):
                        w = w or 'with %d of at most %d buffers queued it goes on' % (env['s'], env['m'])
                except AnalysisError as u:
                    w = w or str(u)
        ctx.ob('bounded', 'worker', w is None, w or 'a full queue is waited for before processing', e.where())
    # --- consumers
    nc = 0
    for f in par.api:
        nm = f.dem.split('(')[0]
        ctx.fn(f)
        ch = [e for e in all_calls(f) if changes(par, f, e)]
        if re.search(r'::start\(', f.dem):
            starts(ctx, par, f)
            continue
        if not ch and not re.search(r'::meta_process\(', f.dem):
            ctx.ob('queue-untouched', nm, True, 'does not change the queue', f.where(None))
            continue
        if not re.search(r'::meta_process\(', f.dem):
            ctx.ob('queue-untouched', nm, False, 'changes the queue', ch[0].where())
            continue
        bad, n = None, 0
        for items, ex in ret_paths(f):
            for seq in expand(items):
                if not feasible(par, f, seq):
                    continue
                w = max([k for k, e in enumerate(seq) if e.kind == 'call' and e.name == 'wait'] or [0])
                sg = segments(seq[w:])
                env = [v for v in ENVS if holds(par, f, sg[1] if w and len(sg) > 1 else [c for q in segments(seq) for c in q], v)]
                n += 1
                bad = bad or consume(par, f, seq, env, boff, bsize)
        nc += n
        ctx.ob('consume', nm, bad is None and n > 0, bad or 'takes the front buffer once and whole, or nothing when stopped and empty (%d paths)' % n, f.where(None))
    ctx.need('consuming paths', nc, 2)

def changes(par, f, e):
    return e.kind == 'call' and bool(re.search(r'std::deque<', e.full)) and bool(e.args) and par.field(f, e.args[0]) == par.q and e.name not in Q_CONST and not e.name.startswith('~') and e.name != 'deque'

def is_back(par, f, t):
    t = drop_version(t)
    return t[0] == 'ld' and par.off(f, t[1]) == par.back_off

def iteration(par, f, seq, waits):
    w = [k for k, e in enumerate(seq) if e.kind == 'call' and e.ins['i'] in waits]
    pr = [k for k, e in enumerate(seq) if e.kind == 'vcall' and e.name in ('meta_process', 'process')]
    gt = [k for k, e in enumerate(seq) if e.kind == 'vcall' and e.name == 'get_buffer']
    ch = [k for k, e in enumerate(seq) if changes(par, f, e)]
    if not pr and not gt and not ch:
        return None
    if len(pr) != 1 or seq[pr[0]].name != 'meta_process' or not is_back(par, f, seq[pr[0]].obj):
        return 'an iteration processes the module behind %d times' % len(pr)
    if len(gt) != 1 or gt[0] < pr[0] or not is_back(par, f, seq[gt[0]].obj):
        return 'the buffer is taken %d times, or before it is produced' % len(gt)
    if len(ch) != 1 or seq[ch[0]].name not in ('push_back', 'emplace_back'):
        return 'an iteration changes the queue with %s' % (', '.join(seq[k].name for k in ch) or 'nothing: the buffer is lost')
    if ch[0] < gt[0] or len(seq[ch[0]].args) != 2:
        return 'the queue is changed before the buffer is taken'
    src, got = drop_version(seq[ch[0]].args[1]), drop_version(f.term(seq[gt[0]].ins['i']))
    if src != got and not via_local(f, seq, gt[0], ch[0], src, got):
        return 'what is appended is not the buffer of the module behind'
    return None

def via_local(f, seq, a, b, src, got):
    """src is a local buffer made from the buffer got, and nothing else, between a and b"""
    if src[0] != 'alloca':
        return False
    whole = any(e.kind == 'call' and e.name in ('Buffer', 'operator=') and len(e.args) == 2 and drop_version(e.args[0]) == src and drop_version(e.args[1]) == got for e in seq[a:b])
    vec = any(e.kind == 'call' and e.name in ('vector', 'operator=') and len(e.args) == 2 and drop_version(e.args[0]) == src and drop_version(e.args[1]) == got for e in seq[a:b])
    rest = any(e.kind in ('copy', 'store') and base_off(drop_version(e.addr))[0] == src and subterm_of(got, e.val) for e in seq[a:b])
    return whole or (vec and rest)

def subterm_of(t, v):
    return isinstance(v, tuple) and any(s == t for s in subterms(drop_version(v)))

def consume(par, f, seq, envs, boff, bsize):
    fr = [k for k, e in enumerate(seq) if e.kind == 'call' and e.name in ('front', 'begin') and par.field(f, e.args[0]) == par.q]
    ch = [k for k, e in enumerate(seq) if changes(par, f, e)]
    w = max([k for k, e in enumerate(seq) if e.kind == 'call' and re.search('condition_variable.*::wait', e.full)] or [-1])
    el = [k for k, e in enumerate(seq) if e.kind in ('call', 'copy', 'store') and not (e.kind == 'call' and e.name in ('front', 'begin')) and touches(e)]
    if not ch:
        if el:
            return 'an element is taken but stays in the queue'
        if any(v['s'] > 0 for v in envs):
            return 'returns without a buffer although one is queued'
        if any(v['d'] == 0 for v in envs if v['s'] == 0):
            return 'returns without a buffer although it is not stopped'
        return None
    if len(ch) != 1 or seq[ch[0]].name != 'pop_front':
        return 'removes with %s' % ', '.join(seq[k].name for k in ch)
    if any(v['s'] == 0 for v in envs):
        return 'removes from a queue that can be empty'
    if not el or max(el) > ch[0]:
        return 'the element is used after it was removed' if el else 'the front buffer is removed without being taken'
    src = drop_version(f.term(seq[fr[-1]].ins['i'])) if fr else None
    if src is None:
        return 'the front element is not what is taken'
    rel = [e for e in seq[min(el):ch[0]] if e.kind == 'call' and (e.name in ('unlock', '~unique_lock', '~lock_guard') or 'condition_variable' in e.full and 'wait' in e.name)]
    if rel:
        return 'the mutex is released between taking and removing the element'
    from c05 import adopted
    ok, why = adopted(f, seq, 0, boff, bsize, src)
    if not ok:
        ok = local_hand(f, seq, src, boff, bsize)
    return None if ok else why

def local_hand(f, seq, src, boff, bsize):
    from c05 import adopted
    for e in seq:
        if e.kind == 'call' and e.name in ('Buffer', 'vector', 'operator=') and len(e.args) == 2 and drop_version(e.args[1]) == src and drop_version(e.args[0])[0] == 'alloca':
            loc = drop_version(e.args[0])
            k = seq.index(e)
            whole = e.name == 'Buffer' or any(x.kind in ('copy', 'store') and base_off(drop_version(x.addr))[0] == loc and subterm_of(src, x.val) for x in seq)
            return whole and adopted(f, seq, k + 1, boff, bsize, loc)[0]
    return False

def touches(e):
    ts = list(e.args) if e.kind == 'call' else [e.addr, e.val]
    return any(isinstance(t, tuple) and any(s[0] == 'call' and re.search(r'std::deque<.*>::(front|begin)\(', str(s[2])) for s in subterms(t)) for t in ts) if not (e.kind == 'call' and 'std::deque<' in e.full) else False

def starts(ctx, par, f):
    bad, n = None, 0
    for items, ex in ret_paths(f):
        for seq in expand(items):
            if not feasible(par, f, seq):
                continue
            sp = [k for k, e in enumerate(seq) if spawns(e)]
            if not sp:
                continue
            n += 1
            cl = [k for k, e in enumerate(seq) if changes(par, f, e)]
            if [seq[k].name for k in cl] != ['clear'] or cl[0] > sp[0]:
                bad = 'the queue is changed by %s before the thread is created' % (', '.join(seq[k].name for k in cl) or 'nothing')
            fl = [e for e in seq[:sp[0]] if e.kind == 'store' and par.off(f, e.addr) == par.flag]
            if not fl or not (isconst(fl[-1].val) and fl[-1].val[1] == 0):
                bad = bad or 'the stop flag is not clear when the thread is created'
    ctx.ob('start-empty', f.dem.split('(')[0], bad is None and n > 0, bad or 'empties the queue and clears the stop flag before the thread is created', f.where(None))
