"""C03 finish accounting: a finish request is answered by exactly one completion report, which counts the module once in its chain."""
from chainlib import *
import c02
LEVEL = 'other'
EXPLANATION = ('For every module class the final overrider of the finish hook must, on every path, make exactly one completion report on itself; the final overrider of the report must on every '
               'path add exactly one to the finish counter of the chain it belongs to; no other analysed function writes that counter. All paths of the normalised bodies are enumerated.')
ASSUMPTIONS = ['a class that overrides the finish hook outside this repository is outside the claim']

def run(ctx):
    prog = ctx.program([r'::(finish|done|process|start|stop|meta_\w+|info_sync|link|forward|get_buffer)\(', r'^wit_', r'^BaseModule::', r'^(Module|Parallel|Chain|Base|Audio|Sink|Source)\w*(<.*>)?::'])
    slots = base_vt(prog)
    fl, dl = 0, 0
    lay = prog.layout('BaseModule')
    coff = member_via(prog, 'wit_get_chain_info')
    fin = prog.off('ChainInfo', 'module_finish')
    for c in classes(prog):
        m = mangled_overrider(prog, c, slots, 'finish')
        if m not in (None, '__cxa_pure_virtual'):
            f = overrider(prog, c, slots, 'finish')
            ctx.fn(f)
            fl += 1
            if fn_class(f) == 'BaseModule':
                continue
            ok, det = True, 'one completion report on every path'
            for items, ex in ret_paths(f):
                st = steps(f, items, {'done'})
                n = sum(1 for s in st if s.tgt == 'self')
                inl = sum(1 for e in walk_events(items) if c02_done_inline(f, e, coff, fin))
                if n + inl != 1 or any(s.tgt != 'self' for s in st):
                    ok, det = False, 'a path through the finish hook makes %d completion reports' % (n + inl)
            ctx.ob('finish-reports-once', c.name + '::finish', ok, det, f.where(None))
        m = mangled_overrider(prog, c, slots, 'done')
        if m not in (None, '__cxa_pure_virtual'):
            f = overrider(prog, c, slots, 'done')
            ctx.fn(f)
            dl += 1
            ok, det = True, 'adds one to the finish counter of its chain on every path'
            for items, ex in ret_paths(f):
                want = [e for e in walk_events(items) if c02_done_inline(f, e, coff, fin)]
                inloop = any(c02_done_inline(f, e, coff, fin) for it in items if it.kind == 'loop' for e in walk_events([it]))
                other = [e for e in walk_events(items) if counter_store(f, e, coff, fin) and not c02_done_inline(f, e, coff, fin)]
                nullskip = any(x.kind == 'cond' and x.t[0] == 'icmp' and I(0) in x.t[2:] and (x.t[1] == 'eq') == x.v for x in items)
                if (len(want) != 1 or inloop or other) and not (nullskip and not want and not other):
                    ok, det = False, 'a path adds %s to the counter' % ('nothing' if not want else 'something other than one')
            ctx.ob('report-counts-once', c.name + '::done', ok, det, f.where(None))
    ctx.need('finish overriders', fl, 45)
    ctx.need('report overriders', dl, 45)
    writers, n = set(), 0
    for f in prog.fns.values():
        n += 1
        if f.short in ('done', 'ChainInfo') or 'thunk' in f.dem:
            continue
        ev = [e for b, e in f.all_events()]
        hit = [counter_store(f, e, coff, fin) or record_store(prog, f, e, fin) for e in ev]
        if any(hit) and not (f.j.get('ret') == 'void' and all(hit)) and not prog.only_step(f):      # a helper is judged in its callers
            writers.add(f.dem)
    # completion is only ever reported from finish hooks
    early = set()
    for f in prog.fns.values():
        if f.short in ('finish', 'done', 'meta_finish') or 'thunk' in f.dem:
            continue
        for b, e in f.all_events():
            if e.kind == 'vcall' and e.name == 'done' and e.obj is not None and f.is_self(e.obj) and e.cls and 'Module' in (e.cls or ''):
                early.add(f.dem)
    ctx.ob('writers', 'chain finish counter', not writers, 'written outside the completion report by: %s (of %d functions)' % (sorted(writers) or 'none', n), '')
    ctx.ob('reporters', 'completion report', not early, 'made outside the finish hooks by: %s' % (sorted(early) or 'none'), '')

def record_store(prog, f, e, fin):
    """a write to the finish counter of the chain record stored inside a sink"""
    if e.kind != 'store' or e.size != 4 or f.short in ('operator=',) or f.short.startswith('~'):
        return False
    cls = fn_class(f)
    if cls not in prog.structs or f.short == cls.split('<')[0].split('::')[-1]:
        return False
    try:
        lay = prog.layout(cls)
    except AnalysisError:
        return False
    b, o = base_off(drop_version(e.addr))
    return b is not None and f.is_self(b) and any(ty == 'ChainInfo' and o == x + fin for x, s, ty in lay.values())

def counter_store(f, e, coff, fin):
    if e.kind != 'store' or e.size != 4:
        return False
    b, o = base_off(drop_version(e.addr))
    if o != fin or b is None or b[0] != 'ld':
        return False
    b2, o2 = base_off(b[1])
    return o2 == coff and b2 is not None

def c02_done_inline(f, e, coff, fin):
    if not counter_store(f, e, coff, fin):
        return False
    b, o = base_off(drop_version(e.addr))
    b2, o2 = base_off(b[1])
    if not f.is_self(b2):
        return False
    d = sub(drop_version(e.val), ('ld', drop_version(e.addr)))
    return d == I(1)
